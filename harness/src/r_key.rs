use crate::r_pool::*;
use crate::world::*;
use cosmwasm_std::*;
use decimal::Decimal;
use oraiswap_v3::interface::*;
use oraiswap_v3::msg::*;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::state::*;
use oraiswap_v3::*;

pub type KeyT = (String, String, u64, u16);
pub fn key_t(k: &PoolKey) -> KeyT {
    (k.token_x.clone(), k.token_y.clone(), k.fee_tier.fee.get(), k.fee_tier.tick_spacing)
}
pub fn mk_key(x: &str, y: &str, fee: u64, ts: u16) -> PoolKey {
    PoolKey { token_x: x.to_string(), token_y: y.to_string(), fee_tier: tier(fee, ts) }
}
fn okey(r: Result<PoolKey, ContractError>) -> Option<KeyT> {
    match r {
        Ok(k) => Some(key_t(&k)),
        Err(_) => None,
    }
}

crate::roots! { disp_key;
    // the pool key of a pair in both orders, and what its bytes decode to
    fn root_poolkey(s, a: String, b: String, fee: u64, ts: u16) -> (Option<KeyT>, Option<KeyT>, Option<KeyT>) {
        let k1 = PoolKey::new(a.clone(), b.clone(), tier(fee, ts));
        let k2 = PoolKey::new(b, a, tier(fee, ts));
        let d = match &k1 { Ok(k) => okey(PoolKey::from_bytes(&k.key())), Err(_) => None };
        (okey(k1), okey(k2), d)
    }
    // whether the storage keys of two pools / ticks / bitmap chunks / positions coincide
    fn root_keys_eq(s, x1: String, y1: String, f1: u64, t1: u16, i1: i32, c1: u16, n1: u32, x2: String, y2: String, f2: u64, t2: u16, i2: i32, c2: u16, n2: u32)
        -> (bool, bool, bool, bool) {
        let (k1, k2) = (mk_key(&x1, &y1, f1, t1), mk_key(&x2, &y2, f2, t2));
        (k1.key() == k2.key(), tick_key(&k1, i1) == tick_key(&k2, i2), bitmap_key(c1, &k1) == bitmap_key(c2, &k2),
            position_key(&Addr::unchecked(x1), n1) == position_key(&Addr::unchecked(x2), n2))
    }
    // registered tiers, optionally an existing pool of the pair (ex tier); anybody creates a pool
    fn root_create_pool(s, tfee: Vec<u64>, tts: Vec<u16>, has: bool, efee: u64, ets: u16, a: String, b: String, fee: u64, ts: u16, price: u128, tick: i32, nanos: u64, admin: String)
        -> (Result<Vec<M>, ()>, Option<(PoolT, String)>, Option<(PoolT, String)>, bool, u64) {
        let mut tiers = vec![];
        for i in 0..tfee.len() {
            tiers.push(tier(tfee[i], tts[i]));
        }
        CONFIG.save(s, &Config { admin: Addr::unchecked(admin), fee_tiers: tiers, protocol_fee: Percentage::new(77) }).unwrap();
        let (x, y) = if a < b { (&a, &b) } else { (&b, &a) };
        let k = mk_key(x, y, fee, ts);
        let ek = mk_key(x, y, efee, ets);
        if has {
            POOLS.save(s, &ek.key(), &mk_pool(5, 6, 7, 8, 9, 10, 11, 12, 13, "old".to_string())).unwrap();
        }
        let r = exec(s, env(5, nanos), info("me", vec![]), ExecuteMsg::CreatePool {
            token_0: a.clone(), token_1: b.clone(), fee_tier: tier(fee, ts), init_sqrt_price: SqrtPrice::new(price), init_tick: tick });
        let r = match r { Ok(r) => Ok(decode_msgs(&r)), Err(_) => Err(()) };
        let get = |k: &PoolKey| match POOLS.may_load(s, &k.key()) { Ok(Some(p)) => Some((pool_t(&p), p.fee_receiver.clone())), _ => None };
        let rev = match POOLS.may_load(s, &mk_key(y, x, fee, ts).key()) { Ok(Some(_)) => true, _ => false };
        (r, get(&k), get(&ek), rev, CONFIG.load(s).unwrap().protocol_fee.get())
    }
    // no liquidity may be opened in, nor swaps run against, a pool that does not exist
    fn root_no_pool(s, kind: u8, x: String, y: String, fee: u64, ts: u16) -> bool {
        CONFIG.save(s, &Config { admin: Addr::unchecked("zzadm"), fee_tiers: vec![tier(fee, ts)], protocol_fee: Percentage::new(77) }).unwrap();
        let pool = mk_pool(1000000000, 1000000000000000000000000, 0, 0, 0, 0, 0, 0, 0, "old".to_string());
        POOLS.save(s, &mk_key("axc", "byc", 100, 10).key(), &pool).unwrap();
        let k = mk_key(&x, &y, fee, ts);
        let msg = if kind == 0 {
            ExecuteMsg::CreatePosition { pool_key: k, lower_tick: -10, upper_tick: 10, liquidity_delta: oraiswap_v3::liquidity::Liquidity::new(1000000),
                slippage_limit_lower: SqrtPrice::new(0), slippage_limit_upper: SqrtPrice::new(u128::MAX) }
        } else {
            ExecuteMsg::Swap { pool_key: k, x_to_y: true, amount: oraiswap_v3::token_amount::TokenAmount(1000), by_amount_in: true, sqrt_price_limit: SqrtPrice::new(999600000000000000000000) }
        };
        exec(s, env(5, 5000000), info("me", vec![]), msg).is_ok()
    }
}
