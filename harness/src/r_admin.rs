use crate::world::*;
use cosmwasm_std::*;
use decimal::Decimal;
use oraiswap_v3::msg::*;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::state::*;
use oraiswap_v3::*;

pub type CfgT = (String, u64, Vec<(u64, u16)>);
pub fn cfg_t(c: &Config) -> CfgT {
    let mut v = vec![];
    for t in &c.fee_tiers {
        v.push((t.fee.get(), t.tick_spacing));
    }
    (c.admin.to_string(), c.protocol_fee.get(), v)
}

crate::roots! { disp_admin;
    // config with symbolic admin / protocol fee / fee tiers and one pool; one administrative message
    fn root_admin(s, kind: u8, admin: String, sender: String, other: String, pf: u64, val: u64,
        tfee: Vec<u64>, tts: Vec<u16>, fee: u64, ts: u16, recv: String, px: u128, py: u128, xn: bool, yn: bool,
        ptier_fee: u64, ptier_ts: u16) -> (Result<Vec<M>, ()>, CfgT, String, PoolT) {
        let mut tiers = vec![];
        for i in 0..tfee.len() {
            tiers.push(tier(tfee[i], tts[i]));
        }
        CONFIG.save(s, &Config { admin: Addr::unchecked(admin), fee_tiers: tiers, protocol_fee: Percentage::new(pf) }).unwrap();
        let key = pkey(xn, yn, ptier_fee, ptier_ts);
        let p0 = mk_pool(7, 1000000000000000000000000, 0, 11, 12, px, py, 1, 2, recv);
        POOLS.save(s, &key.key(), &p0).unwrap();
        let msg = match kind {
            0 => ExecuteMsg::ChangeAdmin { new_admin: Addr::unchecked(other) },
            1 => ExecuteMsg::WithdrawProtocolFee { pool_key: key.clone() },
            2 => ExecuteMsg::ChangeProtocolFee { protocol_fee: Percentage::new(val) },
            3 => ExecuteMsg::ChangeFeeReceiver { pool_key: key.clone(), fee_receiver: Addr::unchecked(other) },
            4 => ExecuteMsg::AddFeeTier { fee_tier: tier(fee, ts) },
            _ => ExecuteMsg::RemoveFeeTier { fee_tier: tier(fee, ts) },
        };
        let r = exec(s, env(5, 6), info(&sender, vec![]), msg);
        let r = match r { Ok(r) => Ok(decode_msgs(&r)), Err(_) => Err(()) };
        let c = CONFIG.load(s).unwrap();
        let p = POOLS.load(s, &key.key()).unwrap();
        (r, cfg_t(&c), p.fee_receiver.clone(), pool_t(&p))
    }
    fn root_instantiate(s, sender: String, pf: u64) -> (Result<(), ()>, Option<CfgT>) {
        let deps = DepsMut { storage: s, api: &VApi, querier: QuerierWrapper::new(&VQ) };
        let r = contract::instantiate(deps, env(5, 6), info(&sender, vec![]), InstantiateMsg { protocol_fee: Percentage::new(pf) });
        let r = match r { Ok(_) => Ok(()), Err(_) => Err(()) };
        let c = match CONFIG.may_load(s) { Ok(Some(c)) => Some(cfg_t(&c)), _ => None };
        (r, c)
    }
}
