use crate::r_pool::*;
use crate::world::*;
use cosmwasm_std::*;
use decimal::{BigOps, Decimal};
use oraiswap_v3::fee_growth::FeeGrowth;
use oraiswap_v3::interface::*;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::*;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::{calculate_sqrt_price, SqrtPrice};
use oraiswap_v3::state::*;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::*;

/// liquidity of the positions (range r[2i]..r[2i+1], ls[i]) around `tick`
pub fn active(r: &Vec<i32>, ls: &Vec<u128>, tick: i32) -> u128 {
    let mut t = 0u128;
    let mut i = 0;
    while i < ls.len() {
        if r[2 * i] <= tick && tick < r[2 * i + 1] {
            t += ls[i];
        }
        i += 1;
    }
    t
}
/// distinct range ends, ascending
pub fn ends(r: &Vec<i32>) -> Vec<i32> {
    let mut v: Vec<i32> = vec![];
    let mut last = i32::MIN;
    loop {
        let mut best = i32::MAX;
        let mut i = 0;
        while i < r.len() {
            if r[i] > last && r[i] < best {
                best = r[i];
            }
            i += 1;
        }
        if best == i32::MAX {
            return v;
        }
        v.push(best);
        last = best;
    }
}
/// stores the ticks of the positions (outs: outside growth x, y and seconds per tick) and the pool with their active liquidity
pub fn put_world(s: &mut dyn Storage, key: &PoolKey, p: &Vec<u128>, tick: i32, start: u64, pfee: u64, r: &Vec<i32>, ls: &Vec<u128>, outs: &Vec<u128>) {
    let es = ends(r);
    let mut k = 0;
    while k < es.len() {
        let (mut up, mut down) = (0u128, 0u128);
        let mut i = 0;
        while i < ls.len() {
            if r[2 * i] == es[k] {
                up += ls[i];
            }
            if r[2 * i + 1] == es[k] {
                down += ls[i];
            }
            i += 1;
        }
        let (sign, change) = if down == 0 { (true, up) } else if up == 0 { (false, down) } else if up >= down { (true, up - down) } else { (false, down - up) };
        let sp = calculate_sqrt_price(es[k]).unwrap().get();
        add_tick(s, key, es[k], &mk_tick(es[k], sign, change, up + down, sp, outs[3 * k], outs[3 * k + 1], outs[3 * k + 2] as u64)).unwrap();
        flip_bitmap(s, true, es[k], key.fee_tier.tick_spacing, key).unwrap();
        k += 1;
    }
    let mut p = p.clone();
    p[0] = active(r, ls, tick);
    put_pool(s, key, &p, tick, start, start, pfee);
}
pub type QuoteT = (u128, u128, u128, Vec<TickT>);
pub fn quote(s: &dyn Storage, e: Env, key: &PoolKey, x_to_y: bool, amount: u128, by_in: bool, limit: u128) -> Option<QuoteT> {
    let m = QueryMsg::Quote { pool_key: key.clone(), x_to_y, amount: TokenAmount::new(amount), by_amount_in: by_in, sqrt_price_limit: SqrtPrice::new(limit) };
    match query(s, e, m) {
        Ok(b) => match from_binary::<QuoteResult>(&b) {
            Ok(q) => {
                let mut ts = vec![];
                for t in &q.ticks {
                    ts.push(tick_t(t));
                }
                Some((q.amount_in.get(), q.amount_out.get(), q.target_sqrt_price.get(), ts))
            }
            Err(_) => None,
        },
        Err(_) => None,
    }
}

/// (amount in, amount out, pool, (outside x, outside y, seconds) per tick)
pub type RefSwapT = (u128, u128, PoolT, Vec<(u128, u128, u64)>);

fn pay_fee(p: &mut PoolT, x: bool, amount: u128, pfee: u64) -> Option<()> {
    let a = TokenAmount::new(amount);
    let prot = a.big_mul_up(Percentage::new(pfee)).get();
    let rest = amount.checked_sub(prot)?;
    if (rest == 0 && prot == 0) || p.0 == 0 {
        return Some(());
    }
    let g = match FeeGrowth::from_fee(Liquidity::new(p.0), TokenAmount::new(rest)) { Ok(g) => g.get(), Err(_) => return None };
    if x {
        p.3 = p.3.wrapping_add(g);
        p.5 = p.5.checked_add(prot)?;
    } else {
        p.4 = p.4.wrapping_add(g);
        p.6 = p.6.checked_add(prot)?;
    }
    Some(())
}
/// What a swap means: walk from initialized tick to initialized tick, one swap step per stretch, with the liquidity of the positions around
/// the current tick in each stretch; a crossed tick turns its outside values around.
pub fn ref_swap(mut p: PoolT, ts: i32, fee: u64, pfee: u64, r: &Vec<i32>, ls: &Vec<u128>, outs: &Vec<u128>,
    x_to_y: bool, amount: u128, by_in: bool, limit: u128, now: u64) -> Option<RefSwapT> {
    let es = ends(r);
    let mut o: Vec<(u128, u128, u64)> = vec![];
    let mut k = 0;
    while k < es.len() {
        o.push((outs[3 * k], outs[3 * k + 1], outs[3 * k + 2] as u64));
        k += 1;
    }
    if amount == 0 {
        return None;
    }
    if x_to_y {
        if limit >= p.1 || limit > MAX_SQRT_PRICE {
            return None;
        }
    } else if limit <= p.1 || limit < MIN_SQRT_PRICE {
        return None;
    }
    let max = 221818 / ts * ts;
    let mut rem = amount;
    let (mut tin, mut tout) = (0u128, 0u128);
    while rem != 0 {
        // next initialized tick, at most 256 spacings away
        let mut hit = usize::MAX;
        let far = if x_to_y { (p.2 - 256 * ts).max(-max) } else { (p.2 + 256 * ts).min(max) };
        let mut k = 0;
        while k < es.len() {
            if x_to_y {
                if es[k] <= p.2 && es[k] >= far {
                    hit = k;
                }
            } else if es[k] > p.2 && es[k] <= far && hit == usize::MAX {
                hit = k;
            }
            k += 1;
        }
        let to = if hit != usize::MAX { es[hit] } else { far };
        if hit == usize::MAX && far == p.2 {
            return None;
        }
        let tp = calculate_sqrt_price(to).unwrap().get();
        // a tick exactly at the limit is entered going up, not going down
        let lim = if x_to_y { tp <= limit } else { tp > limit };
        let target = if lim { limit } else { tp };
        let st = match compute_swap_step(SqrtPrice::new(p.1), SqrtPrice::new(target), Liquidity::new(p.0), TokenAmount::new(rem), by_in, Percentage::new(fee)) {
            Ok(s) => s,
            Err(_) => return None,
        };
        let (i, out, f) = (st.amount_in.get(), st.amount_out.get(), st.fee_amount.get());
        rem = if by_in { rem.checked_sub(i + f)? } else { rem.checked_sub(out)? };
        pay_fee(&mut p, x_to_y, f, pfee)?;
        tin = tin.checked_add(i + f)?;
        tout = tout.checked_add(out)?;
        p.1 = st.next_sqrt_price.get();
        if p.1 == limit && rem != 0 {
            return None;
        }
        if lim || p.1 != target {
            p.2 = match get_tick_at_sqrt_price(SqrtPrice::new(p.1), ts as u16) { Ok(t) => t, Err(_) => return None };
        } else {
            let moves = match is_enough_amount_to_change_price(TokenAmount::new(rem), SqrtPrice::new(p.1), Liquidity::new(p.0), Percentage::new(fee), by_in, x_to_y) {
                Ok(m) => m,
                Err(_) => return None,
            };
            if hit != usize::MAX {
                if !x_to_y || moves {
                    let t = o[hit];
                    o[hit] = (p.3.wrapping_sub(t.0), p.4.wrapping_sub(t.1), now.checked_sub(p.7)?.wrapping_sub(t.2));
                    p.8 = now;
                    p.0 = active(r, ls, if x_to_y { to - ts } else { to });
                } else if rem != 0 {
                    // what is left cannot move the price: kept as fee (exact in) or dropped (exact out)
                    if by_in {
                        pay_fee(&mut p, x_to_y, rem, pfee)?;
                        tin = tin.checked_add(rem)?;
                    }
                    rem = 0;
                }
            }
            p.2 = if x_to_y && moves { to - ts } else { to };
        }
        if (x_to_y && p.2 <= -max) || (!x_to_y && p.2 >= max) {
            return None;
        }
    }
    if tout == 0 {
        return None;
    }
    Some((tin, tout, p, o))
}

crate::roots! { disp_swap;
    // one swap against a pool whose ticks come from positions with arbitrary liquidity; returns the messages, the quote before it,
    // pool before/after, the ticks after, and the liquidity of the positions around the tick the pool ends at
    fn root_swap(s, xn: bool, yn: bool, fee: u64, ts: u16, pfee: u64, p: Vec<u128>, tick: i32, start: u64, r: Vec<i32>, ls: Vec<u128>, outs: Vec<u128>,
        x_to_y: bool, amount: u128, by_in: bool, limit: u128, hx: bool, fx: u128, hy: bool, fy: u128, nanos: u64)
        -> (Result<Vec<M>, ()>, Option<QuoteT>, PoolT, PoolT, Vec<TB>, u128, Option<RefSwapT>) {
        let key = pkey(xn, yn, fee, ts);
        put_world(s, &key, &p, tick, start, pfee, &r, &ls, &outs);
        let pre = read_pool(s, &key);
        let rf = ref_swap(pre, ts as i32, fee, pfee, &r, &ls, &outs, x_to_y, amount, by_in, limit, nanos / 1000000);
        let q = quote(s, env(5, nanos), &key, x_to_y, amount, by_in, limit);
        let res = exec(s, env(5, nanos), info("me", funds(hx, fx, hy, fy)), ExecuteMsg::Swap {
            pool_key: key.clone(), x_to_y, amount: TokenAmount::new(amount), by_amount_in: by_in, sqrt_price_limit: SqrtPrice::new(limit),
        });
        let res = match res { Ok(x) => Ok(decode_msgs(&x)), Err(_) => Err(()) };
        let post = read_pool(s, &key);
        let mut ticks = vec![];
        for e in ends(&r) {
            ticks.push(read_tick(s, &key, e));
        }
        (res, q, pre, post, ticks, active(&r, &ls, post.2), rf)
    }

    // a two-hop route: hop 1 over the pool (a, b) in direction d1, hop 2 over (b, c) (kind 0), (a, c) (kind 1) or the same pool (kind 2) in direction d2;
    // returns the messages, the quoted amount, pools before/after, and what two swaps in a row mean: (first in, first out, second in, second out, pools after)
    fn root_route(s, an: bool, bn: bool, cn: bool, fee: u64, ts: u16, pfee: u64, p1: Vec<u128>, t1: i32, p2: Vec<u128>, t2: i32, r: Vec<i32>, ls: Vec<u128>, l2: Vec<u128>,
        outs: Vec<u128>, kind: u8, d1: bool, d2: bool, amount: u128, expected: u128, slippage: u64, has: Vec<u8>, fs: Vec<u128>, nanos: u64)
        -> (Result<Vec<M>, ()>, Option<u128>, PoolT, PoolT, Option<(u128, u128, u128, u128, PoolT, PoolT)>) {
        let c = if cn { "czn" } else { "czc" };
        let k1 = pkey(an, bn, fee, ts);
        let k2 = if kind == 2 { k1.clone() } else { PoolKey { token_x: if kind == 0 { tok(false, bn) } else { tok(true, an) }, token_y: c.to_string(), fee_tier: tier(fee, ts) } };
        put_world(s, &k1, &p1, t1, 0, pfee, &r, &ls, &outs);
        if kind != 2 {
            put_world(s, &k2, &p2, t2, 0, pfee, &r, &l2, &outs);
        }
        let lim = |d: bool| if d { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
        let now = nanos / 1000000;
        let b1 = read_pool(s, &k1);
        let rf = match ref_swap(b1, ts as i32, fee, pfee, &r, &ls, &outs, d1, amount, true, lim(d1), now) {
            Some((i1, o1, q1, u1)) => {
                let mut u: Vec<u128> = vec![];
                let b2 = if kind == 2 {
                    for x in &u1 {
                        u.push(x.0);
                        u.push(x.1);
                        u.push(x.2 as u128);
                    }
                    q1
                } else {
                    u = outs.clone();
                    read_pool(s, &k2)
                };
                let lq = if kind == 2 { &ls } else { &l2 };
                match ref_swap(b2, ts as i32, fee, pfee, &r, lq, &u, d2, o1, true, lim(d2), now) {
                    Some((i2, o2, q2, _)) => Some((i1, o1, i2, o2, if kind == 2 { q2 } else { q1 }, q2)),
                    None => None,
                }
            }
            None => None,
        };
        let hops = vec![SwapHop { pool_key: k1.clone(), x_to_y: d1 }, SwapHop { pool_key: k2.clone(), x_to_y: d2 }];
        let q = match query(s, env(5, nanos), QueryMsg::QuoteRoute { amount_in: TokenAmount::new(amount), swaps: hops.clone() }) {
            Ok(b) => match from_binary::<TokenAmount>(&b) { Ok(a) => Some(a.get()), Err(_) => None },
            Err(_) => None,
        };
        let mut f = vec![];
        if has[0] == 1 {
            f.push(crate::world::coin("axn", fs[0]));
        }
        if has[1] == 1 {
            f.push(crate::world::coin("byn", fs[1]));
        }
        if has[2] == 1 {
            f.push(crate::world::coin("czn", fs[2]));
        }
        let res = exec(s, env(5, nanos), info("me", f), ExecuteMsg::SwapRoute {
            amount_in: TokenAmount::new(amount), expected_amount_out: TokenAmount::new(expected), slippage: Percentage::new(slippage), swaps: hops,
        });
        let res = match res { Ok(x) => Ok(decode_msgs(&x)), Err(_) => Err(()) };
        (res, q, read_pool(s, &k1), read_pool(s, &k2), rf)
    }
}
