use crate::r_key::*;
use crate::r_pool::*;
use crate::world::*;
use cosmwasm_std::*;
use cw20::Expiration;
use decimal::Decimal;
use oraiswap_v3::interface::*;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::*;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::state::*;
use oraiswap_v3::*;

fn ask<T: serde::de::DeserializeOwned>(s: &dyn Storage, m: QueryMsg) -> Option<T> {
    ask_at(s, 5, 5, m)
}
fn ask_at<T: serde::de::DeserializeOwned>(s: &dyn Storage, h: u64, n: u64, m: QueryMsg) -> Option<T> {
    match query(s, env(h, n), m) {
        Ok(b) => Some(from_binary::<T>(&b).unwrap()),
        Err(_) => None,
    }
}
fn o32(has: bool, v: u32) -> Option<u32> {
    if has { Some(v) } else { None }
}
fn toks(r: Option<TokensResponse>) -> Option<Vec<Vec<u8>>> {
    match r {
        Some(r) => {
            let mut v = vec![];
            for t in r.tokens {
                v.push(t.to_vec());
            }
            Some(v)
        }
        None => None,
    }
}
fn pools_t(r: Option<Vec<PoolWithPoolKey>>) -> Option<Vec<(KeyT, PoolT)>> {
    match r {
        Some(r) => {
            let mut v = vec![];
            for p in r {
                v.push((key_t(&p.pool_key), pool_t(&p.pool)));
            }
            Some(v)
        }
        None => None,
    }
}
fn put_positions(s: &mut dyn Storage, who: &str, liqs: &Vec<u128>) {
    let key = pkey(true, false, 6000000000, 10);
    let mut i = 0;
    while i < liqs.len() {
        add_position(s, &Addr::unchecked(who), &mk_pos(key.clone(), liqs[i], -10 * (i as i32 + 1), 10, 1, 2, 3, 4, 5)).unwrap();
        i += 1;
    }
}
type PkT = (KeyT, PosT);

crate::roots! { disp_list;
    // positions of "me" and of another account; every listing of one account
    fn root_q_positions(s, mine: Vec<u128>, theirs: Vec<u128>, hl: bool, limit: u32, ho: bool, offset: u32, idx: u32)
        -> (Option<Vec<PkT>>, Option<Vec<Vec<u8>>>, Option<u32>, Option<PkT>) {
        put_positions(s, "ot", &theirs);
        put_positions(s, "me", &mine);
        let me = Addr::unchecked("me");
        let pt = |p: &Position| (key_t(&p.pool_key), pos_t(p));
        let a = match ask::<Vec<Position>>(s, QueryMsg::Positions { owner_id: me.clone(), limit: o32(hl, limit), offset: o32(ho, offset) }) {
            Some(l) => {
                let mut v = vec![];
                for p in &l {
                    v.push(pt(p));
                }
                Some(v)
            }
            None => None,
        };
        let t = toks(ask::<TokensResponse>(s, QueryMsg::Tokens { owner: me.clone(), start_after: o32(ho, offset), limit: o32(hl, limit) }));
        let n = ask::<u32>(s, QueryMsg::UserPositionAmount { owner: me.clone() });
        let p = match ask::<Position>(s, QueryMsg::Position { owner_id: me, index: idx }) { Some(p) => Some(pt(&p)), None => None };
        (a, t, n, p)
    }
    // every token of every account
    fn root_q_tokens(s, mine: Vec<u128>, theirs: Vec<u128>, hs: bool, start: Vec<u8>, hl: bool, limit: u32) -> Option<Vec<Vec<u8>>> {
        put_positions(s, "me", &mine);
        put_positions(s, "ot", &theirs);
        toks(ask::<TokensResponse>(s, QueryMsg::AllTokens { start_after: if hs { Some(Binary::from(start)) } else { None }, limit: o32(hl, limit) }))
    }
    // pools with the given (sorted) tokens and tiers
    fn root_q_pools(s, xs: Vec<u8>, ys: Vec<u8>, fees: Vec<u64>, liqs: Vec<u128>, hs: bool, sx: u8, sy: u8, sfee: u64, hl: bool, limit: u32) -> Option<Vec<(KeyT, PoolT)>> {
        let st = |b: u8| String::from_utf8(vec![b]).unwrap();
        let mut i = 0;
        while i < xs.len() {
            let k = mk_key(&st(xs[i]), &st(ys[i]), fees[i], 10);
            POOLS.save(s, &k.key(), &mk_pool(liqs[i], 6, 7, 8, 9, 10, 11, 12, 13, "old".to_string())).unwrap();
            i += 1;
        }
        let sa = if hs { Some(mk_key(&st(sx), &st(sy), sfee, 10)) } else { None };
        pools_t(ask::<Vec<PoolWithPoolKey>>(s, QueryMsg::Pools { limit: o32(hl, limit), start_after: sa }))
    }
    // tiers with and without a pool of the pair
    fn root_q_pair(s, fees: Vec<u64>, tss: Vec<u16>, has: Vec<bool>, liqs: Vec<u128>, a: String, b: String, qfee: u64, qts: u16)
        -> (Option<Vec<(KeyT, PoolT)>>, Option<PoolT>, Option<bool>, Option<Vec<(u64, u16)>>, Option<u64>, Option<String>) {
        let mut tiers = vec![];
        let mut i = 0;
        while i < fees.len() {
            tiers.push(tier(fees[i], tss[i]));
            if has[i] {
                let k = mk_key("axc", "byc", fees[i], tss[i]);
                POOLS.save(s, &k.key(), &mk_pool(liqs[i], 6, 7, 8, 9, 10, 11, 12, 13, "old".to_string())).unwrap();
            }
            i += 1;
        }
        CONFIG.save(s, &Config { admin: Addr::unchecked("zzadm"), fee_tiers: tiers, protocol_fee: Percentage::new(qfee) }).unwrap();
        let l = pools_t(ask::<Vec<PoolWithPoolKey>>(s, QueryMsg::PoolsForPair { token_0: a.clone(), token_1: b.clone() }));
        let p = match ask::<Pool>(s, QueryMsg::Pool { token_0: a, token_1: b, fee_tier: tier(qfee, qts) }) { Some(p) => Some(pool_t(&p)), None => None };
        let e = ask::<bool>(s, QueryMsg::FeeTierExist { fee_tier: tier(qfee, qts) });
        let t = match ask::<Vec<FeeTier>>(s, QueryMsg::FeeTiers {}) {
            Some(l) => {
                let mut v = vec![];
                for t in &l {
                    v.push((t.fee.get(), t.tick_spacing));
                }
                Some(v)
            }
            None => None,
        };
        let f = match ask::<Percentage>(s, QueryMsg::ProtocolFee {}) { Some(p) => Some(p.get()), None => None };
        let ad = match ask::<Addr>(s, QueryMsg::Admin {}) { Some(a) => Some(a.to_string()), None => None };
        (l, p, e, t, f, ad)
    }
    // two ticks of a pool (each may be missing) and one of another pool
    fn root_q_ticks(s, t1: Vec<u128>, t2: Vec<u128>, to: Vec<u128>, idx: Vec<i32>, one: i32) -> (Option<Vec<(i32, u128, bool)>>, Option<TickT>) {
        let (k, ko) = (pkey(true, false, 100, 10), pkey(true, false, 200, 10));
        put_tick(s, &k, -10, &t1);
        put_tick(s, &k, 20, &t2);
        put_tick(s, &ko, 30, &to);
        put_tick(s, &ko, -10, &to);
        let l = match ask::<Vec<LiquidityTick>>(s, QueryMsg::LiquidityTicks { pool_key: k.clone(), tick_indexes: idx }) {
            Some(l) => {
                let mut v = vec![];
                for t in &l {
                    v.push((t.index, t.liquidity_change.get(), t.sign));
                }
                Some(v)
            }
            None => None,
        };
        let t = match ask::<Tick>(s, QueryMsg::Tick { key: k, index: one }) { Some(t) => Some(tick_t(&t)), None => None };
        (l, t)
    }
    // ticks of the positions of "me": position i spans (-10 (i + 1), 10)
    fn root_q_position_ticks(s, n: u32, t: Vec<u128>, u: Vec<u128>, offset: u32) -> Option<Vec<(i32, u128, u128, u64)>> {
        let key = pkey(true, false, 6000000000, 10);
        let mut l = vec![];
        let mut i = 0;
        while i < n {
            l.push(7 + i as u128);
            put_tick(s, &key, -10 * (i as i32 + 1), &t);
            i += 1;
        }
        put_tick(s, &key, 10, &u);
        put_positions(s, "me", &l);
        match ask::<Vec<oraiswap_v3::PositionTick>>(s, QueryMsg::PositionTicks { owner: Addr::unchecked("me"), offset }) {
            Some(l) => {
                let mut v = vec![];
                for t in &l {
                    v.push((t.index, t.fee_growth_outside_x.get(), t.fee_growth_outside_y.get(), t.seconds_outside));
                }
                Some(v)
            }
            None => None,
        }
    }
    // a token with two approvals, three operators of its owner; owner, info and operator listings
    fn root_q_nft(s, owner: String, n: u32, idx: u32, liq: u128, k0: u8, v0: u64, k1: u8, v1: u64, ops: Vec<u8>, ok: Vec<u8>, ov: Vec<u64>, incl: bool, hs: bool, start: u8, hl: bool, limit: u32, h: u64, nanos: u64)
        -> (Option<(String, Vec<(String, u8, u64)>)>, Option<PosT>, Option<(String, Vec<(String, u8, u64)>, PosT)>, Option<Vec<(String, u8, u64)>>) {
        let key = pkey(true, false, 6000000000, 10);
        let o = Addr::unchecked(owner.clone());
        let mut i = 0;
        while i < n {
            let mut p = mk_pos(key.clone(), liq, -10 * (i as i32 + 1), 10, 1, 2, 3, 4, 5);
            if i == 0 {
                p.approvals.push(Approval { spender: Addr::unchecked("s0"), expires: mk_exp(k0, v0).unwrap() });
                p.approvals.push(Approval { spender: Addr::unchecked("s1"), expires: mk_exp(k1, v1).unwrap() });
            }
            add_position(s, &o, &p).unwrap();
            i += 1;
        }
        let st = |b: u8| String::from_utf8(vec![b]).unwrap();
        let mut i = 0;
        while i < ops.len() {
            OPERATORS.save(s, (owner.as_bytes(), st(ops[i]).as_bytes()), &mk_exp(ok[i], ov[i]).unwrap()).unwrap();
            i += 1;
        }
        OPERATORS.save(s, ("zq".as_bytes(), "b".as_bytes()), &Expiration::Never {}).unwrap();
        let id = Binary::from(position_key(&o, idx));
        let a = match ask_at::<OwnerOfResponse>(s, h, nanos, QueryMsg::OwnerOf { token_id: id.clone(), include_expired: Some(incl) }) {
            Some(r) => Some((r.owner.to_string(), apps_t(&r.approvals))),
            None => None,
        };
        let b = match ask_at::<NftInfoResponse>(s, h, nanos, QueryMsg::NftInfo { token_id: id.clone() }) { Some(r) => Some(pos_t(&r.extension)), None => None };
        let c = match ask_at::<AllNftInfoResponse>(s, h, nanos, QueryMsg::AllNftInfo { token_id: id, include_expired: Some(incl) }) {
            Some(r) => Some((r.access.owner.to_string(), apps_t(&r.access.approvals), pos_t(&r.info.extension))),
            None => None,
        };
        let sa = if hs { Some(Addr::unchecked(st(start))) } else { None };
        let d = match ask_at::<ApprovedForAllResponse>(s, h, nanos, QueryMsg::ApprovedForAll { owner: o, include_expired: Some(incl), start_after: sa, limit: o32(hl, limit) }) {
            Some(r) => Some(apps_t(&r.operators)),
            None => None,
        };
        (a, b, c, d)
    }
}
