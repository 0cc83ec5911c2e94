use crate::world::*;
use cosmwasm_std::*;
use decimal::Decimal;
use oraiswap_v3::interface::*;
use oraiswap_v3::msg::*;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::state::*;
use oraiswap_v3::*;

/// (number of positions recorded for the account, the entries 0..3)
pub type ListT = (u32, Vec<Option<PosT>>);
pub fn dump(s: &dyn Storage, who: &Addr) -> ListT {
    let mut v = vec![];
    let mut i = 0u32;
    while i < 4 {
        v.push(match POSITIONS.may_load(s, &position_key(who, i)) {
            Ok(Some(p)) => Some(pos_t(&p)),
            _ => None,
        });
        i += 1;
    }
    (get_position_length(s, who), v)
}
pub fn op_t(s: &dyn Storage, owner: &str, op: &str) -> Option<(u8, u64)> {
    match OPERATORS.may_load(s, (owner.as_bytes(), op.as_bytes())) {
        Ok(Some(e)) => Some(exp_t(&e)),
        _ => None,
    }
}
/// a pool at tick 0 holding the liquidity of `n` positions over [-10, 10]
pub fn setup_pool(s: &mut dyn Storage, key: &PoolKey, liq: u128, recv: &str) {
    CONFIG.save(s, &Config { admin: Addr::unchecked("zzadm"), fee_tiers: vec![], protocol_fee: Percentage::new(10000000000) }).unwrap();
    POOLS.save(s, &key.key(), &mk_pool(liq, 1000000000000000000000000, 0, 0, 0, 0, 0, 0, 0, recv.to_string())).unwrap();
    add_tick(s, key, -10, &mk_tick(-10, true, liq, liq, 999500149964000000000000, 0, 0, 0)).unwrap();
    add_tick(s, key, 10, &mk_tick(10, false, liq, liq, 1000500100010000000000000, 0, 0, 0)).unwrap();
    flip_bitmap(s, true, -10, 10, key).unwrap();
    flip_bitmap(s, true, 10, 10, key).unwrap();
}
fn opt(has: bool, b: Vec<u8>) -> Option<Binary> {
    if has { Some(Binary::from(b)) } else { None }
}

crate::roots! { disp_nft;
    // positions: `no` of owner, `ns` of sender, `nt` of target; the owner's position `ai` carries the given approvals;
    // operator grant (owner -> gop); one message about token (owner, idx)
    fn root_nft(s, kind: u8, owner: String, sender: String, target: String, no: u32, ns: u32, nt: u32, idx: u32,
        ai: u32, na: u32, a0: String, a0k: u8, a0v: u64, a1: String, a1k: u8, a1v: u64, gop: String, ghas: bool, gkind: u8, gval: u64,
        ekind: u8, eval: u64, height: u64, nanos: u64)
        -> (Result<Vec<M>, ()>, (ListT, ListT, ListT), (ListT, ListT, ListT), Vec<Option<(u8, u64)>>, Vec<Option<(u8, u64)>>) {
        let key = pkey(true, false, 6000000000, 10);
        let (o, sd, t) = (Addr::unchecked(owner.clone()), Addr::unchecked(sender.clone()), Addr::unchecked(target.clone()));
        let mut total = 0u128;
        let mut i = 0u32;
        while i < no + ns + nt {
            let liq = 10000000000000 + i as u128;
            total += liq;
            let mut p = mk_pos(key.clone(), liq, -10, 10, 0, 0, 3, 0, 0);
            if i == ai {
                if na > 0 {
                    p.approvals.push(Approval { spender: Addr::unchecked(a0.clone()), expires: mk_exp(a0k, a0v).unwrap() });
                }
                if na > 1 {
                    p.approvals.push(Approval { spender: Addr::unchecked(a1.clone()), expires: mk_exp(a1k, a1v).unwrap() });
                }
            }
            let who = if i < no { &o } else if i < no + ns { &sd } else { &t };
            add_position(s, who, &p).unwrap();
            i += 1;
        }
        setup_pool(s, &key, total, "zzrcv");
        if ghas {
            OPERATORS.save(s, (owner.as_bytes(), gop.as_bytes()), &mk_exp(gkind, gval).unwrap()).unwrap();
        }
        let pre = (dump(s, &o), dump(s, &sd), dump(s, &t));
        let pre_op = vec![op_t(s, &owner, &sender), op_t(s, &owner, &target), op_t(s, &sender, &target), op_t(s, &owner, &gop)];
        let token_id = Binary::from(position_key(&o, idx));
        let msg = match kind {
            0 => ExecuteMsg::Approve { spender: t.clone(), token_id, expires: mk_exp(ekind, eval) },
            1 => ExecuteMsg::Revoke { spender: t.clone(), token_id },
            2 => ExecuteMsg::ApproveAll { operator: t.clone(), expires: mk_exp(ekind, eval) },
            3 => ExecuteMsg::RevokeAll { operator: t.clone() },
            4 => ExecuteMsg::TransferNft { recipient: t.clone(), token_id },
            5 => ExecuteMsg::SendNft { contract: t.clone(), token_id, msg: opt(false, vec![]) },
            6 => ExecuteMsg::Burn { token_id },
            7 => ExecuteMsg::TransferPosition { index: idx, receiver: target.clone() },
            8 => ExecuteMsg::RemovePosition { index: idx },
            _ => ExecuteMsg::ClaimFee { index: idx },
        };
        let r = exec(s, env(height, nanos), info(&sender, vec![]), msg);
        let r = match r {
            Ok(r) => Ok(if kind == 5 { wasm_targets(&r) } else { decode_msgs(&r) }),
            Err(_) => Err(()),
        };
        let post = (dump(s, &o), dump(s, &sd), dump(s, &t));
        let post_op = vec![op_t(s, &owner, &sender), op_t(s, &owner, &target), op_t(s, &sender, &target), op_t(s, &owner, &gop)];
        (r, pre, post, pre_op, post_op)
    }
}
