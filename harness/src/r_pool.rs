use crate::r_nft::*;
use crate::world::*;
use cosmwasm_std::*;
use decimal::Decimal;
use oraiswap_v3::fee_growth::FeeGrowth;
use oraiswap_v3::interface::*;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::*;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::{calculate_sqrt_price, SqrtPrice};
use oraiswap_v3::state::*;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::*;

fn oa(r: Result<TokenAmount, ContractError>) -> Option<u128> {
    match r {
        Ok(x) => Some(x.get()),
        Err(_) => None,
    }
}
/// t = [present, sign, change, gross, outside x, outside y, seconds]
pub fn put_tick(s: &mut dyn Storage, key: &PoolKey, index: i32, t: &Vec<u128>) {
    if t[0] == 1 {
        let sp = calculate_sqrt_price(index).unwrap().get();
        add_tick(s, key, index, &mk_tick(index, t[1] == 1, t[2], t[3], sp, t[4], t[5], t[6] as u64)).unwrap();
        flip_bitmap(s, true, index, key.fee_tier.tick_spacing, key).unwrap();
    }
}
pub fn read_tick(s: &dyn Storage, key: &PoolKey, index: i32) -> (Option<TickT>, bool) {
    let t = match get_tick(s, key, index) {
        Ok(t) => Some(tick_t(&t)),
        Err(_) => None,
    };
    (t, get_bitmap(s, index, key.fee_tier.tick_spacing, key))
}
/// p = [liquidity, sqrt price, fgx, fgy, protocol x, protocol y]
pub fn put_pool(s: &mut dyn Storage, key: &PoolKey, p: &Vec<u128>, tick: i32, start: u64, last: u64, pfee: u64) {
    CONFIG.save(s, &Config { admin: Addr::unchecked("zzadm"), fee_tiers: vec![], protocol_fee: Percentage::new(pfee) }).unwrap();
    POOLS.save(s, &key.key(), &mk_pool(p[0], p[1], tick, p[2], p[3], p[4], p[5], start, last, "zzrcv".to_string())).unwrap();
}
pub fn read_pool(s: &dyn Storage, key: &PoolKey) -> PoolT {
    pool_t(&POOLS.load(s, &key.key()).unwrap())
}
/// amounts of `liq` over [lower, upper) at the pool's price by the real delta functions: (x up, y up, x down, y down)
pub fn refs(p: &PoolT, liq: u128, lower: i32, upper: i32) -> (Option<u128>, Option<u128>, Option<u128>, Option<u128>) {
    let (pl, pu) = (calculate_sqrt_price(lower).unwrap(), calculate_sqrt_price(upper).unwrap());
    let (l, c) = (Liquidity::new(liq), SqrtPrice::new(p.1));
    if p.2 < lower {
        (oa(get_delta_x(pl, pu, l, true)), Some(0), oa(get_delta_x(pl, pu, l, false)), Some(0))
    } else if p.2 < upper {
        (oa(get_delta_x(c, pu, l, true)), oa(get_delta_y(pl, c, l, true)), oa(get_delta_x(c, pu, l, false)), oa(get_delta_y(pl, c, l, false)))
    } else {
        (Some(0), oa(get_delta_y(pl, pu, l, true)), Some(0), oa(get_delta_y(pl, pu, l, false)))
    }
}
pub type TB = (Option<TickT>, bool);
pub type RefT = (Option<u128>, Option<u128>, Option<u128>, Option<u128>);

crate::roots! { disp_pool;
    // one position message against a pool with arbitrary content
    // kind 0 create, 1 remove the position q=[liq, fgix, fgiy, owed x, owed y], 2 claim its fees, 3 create then remove
    fn root_lp(s, kind: u8, np: u32, xn: bool, yn: bool, fee: u64, ts: u16, p: Vec<u128>, tick: i32, start: u64, last: u64,
        lower: i32, upper: i32, other: i32, tl: Vec<u128>, tu: Vec<u128>, to: Vec<u128>, q: Vec<u128>,
        delta: u128, slo: u128, shi: u128, hx: bool, fx: u128, hy: bool, fy: u128, height: u64, nanos: u64)
        -> (Result<Vec<M>, ()>, Vec<M>, PoolT, (TB, TB, TB), u32, Option<PosT>, RefT) {
        let key = pkey(xn, yn, fee, ts);
        put_pool(s, &key, &p, tick, start, last, 10000000000);
        put_tick(s, &key, lower, &tl);
        put_tick(s, &key, upper, &tu);
        put_tick(s, &key, other, &to);
        let me = Addr::unchecked("me");
        let mut i = 0;
        while i < np {
            let mut pos = mk_pos(key.clone(), q[0], lower, upper, q[1], q[2], 3, q[3], q[4]);
            if i != 0 {
                pos.liquidity = Liquidity::new(1000 + i as u128);
            }
            add_position(s, &me, &pos).unwrap();
            i += 1;
        }
        let pre = read_pool(s, &key);
        let rf = refs(&pre, if kind == 1 { q[0] } else { delta }, lower, upper);
        let mut first = vec![];
        let msg = match kind {
            0 | 3 => ExecuteMsg::CreatePosition {
                pool_key: key.clone(), lower_tick: lower, upper_tick: upper, liquidity_delta: Liquidity::new(delta),
                slippage_limit_lower: SqrtPrice::new(slo), slippage_limit_upper: SqrtPrice::new(shi),
            },
            1 => ExecuteMsg::RemovePosition { index: 0 },
            _ => ExecuteMsg::ClaimFee { index: 0 },
        };
        let mut r = exec(s, env(height, nanos), info("me", funds(hx, fx, hy, fy)), msg);
        if kind == 3 {
            if let Ok(x) = &r {
                first = decode_msgs(x);
                r = exec(s, env(height, nanos), info("me", vec![]), ExecuteMsg::RemovePosition { index: np });
            }
        }
        let r = match r { Ok(r) => Ok(decode_msgs(&r)), Err(_) => Err(()) };
        let pos = match get_position(s, &me, if kind == 0 { np } else { 0 }) { Ok(p) => Some(pos_t(&p)), Err(_) => None };
        (r, first, read_pool(s, &key), (read_tick(s, &key, lower), read_tick(s, &key, upper), read_tick(s, &key, other)),
            get_position_length(s, &me), pos, rf)
    }
    // only creates; true when the message is accepted
    fn root_lp_bad(s, kind: u8, np: u32, xn: bool, yn: bool, fee: u64, ts: u16, p: Vec<u128>, tick: i32, start: u64, last: u64,
        lower: i32, upper: i32, other: i32, tl: Vec<u128>, tu: Vec<u128>, to: Vec<u128>, q: Vec<u128>,
        delta: u128, slo: u128, shi: u128, hx: bool, fx: u128, hy: bool, fy: u128, height: u64, nanos: u64) -> bool {
        let key = pkey(xn, yn, fee, ts);
        put_pool(s, &key, &p, tick, start, last, 10000000000);
        let msg = ExecuteMsg::CreatePosition {
            pool_key: key.clone(), lower_tick: lower, upper_tick: upper, liquidity_delta: Liquidity::new(delta),
            slippage_limit_lower: SqrtPrice::new(slo), slippage_limit_upper: SqrtPrice::new(shi),
        };
        exec(s, env(height, nanos), info("me", funds(hx, fx, hy, fy)), msg).is_ok()
    }
}
