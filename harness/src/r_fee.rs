use crate::r_pool::*;
use crate::world::*;
use cosmwasm_std::*;
use decimal::Decimal;
use oraiswap_v3::fee_growth::{calculate_fee_growth_inside, FeeGrowth};
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::*;

fn inside(lo: i32, hi: i32, tl: &Tick, tu: &Tick, p: &Pool) -> (u128, u128) {
    let (x, y) = calculate_fee_growth_inside(lo, tl.fee_growth_outside_x, tl.fee_growth_outside_y, hi, tu.fee_growth_outside_x, tu.fee_growth_outside_y,
        p.current_tick_index, p.fee_growth_global_x, p.fee_growth_global_y);
    (x.get(), y.get())
}

crate::roots! { disp_fee;
    // adds a swap fee to a pool p = [liquidity, sqrt price, fgx, fgy, protocol x, protocol y]
    fn root_add_fee(s, p: Vec<u128>, amount: u128, in_x: bool, pf: u64) -> Option<PoolT> {
        let mut pool = mk_pool(p[0], p[1], 7, p[2], p[3], p[4], p[5], 1, 2, "r".to_string());
        match pool.add_fee(TokenAmount::new(amount), in_x, Percentage::new(pf)) {
            Ok(_) => Some(pool_t(&pool)),
            Err(_) => None,
        }
    }
    // what three positions making up the whole liquidity earn from a fee
    fn root_fee_share(s, l1: u128, l2: u128, l3: u128, amount: u128) -> Option<(u128, u128, u128)> {
        match FeeGrowth::from_fee(Liquidity::new(l1 + l2 + l3), TokenAmount::new(amount)) {
            Ok(g) => {
                let f = |l: u128| g.to_fee(Liquidity::new(l)).unwrap().get();
                Some((f(l1), f(l2), f(l3)))
            }
            Err(_) => None,
        }
    }
    // fee growth inside (lo, hi) before and after the price crosses the lower (up from lo - ts) or upper tick, in the given direction;
    // a fee grows in the pool between
    fn root_cross_inside(s, lo: i32, hi: i32, ts: i32, at_upper: bool, down: bool, g: Vec<u128>, gx: u128, gy: u128, o: Vec<u128>, liq: u128, change: u128, sign: bool, start: u64, now: u64)
        -> Option<((u128, u128), (u128, u128), u128, (TickT, TickT))> {
        let t = if at_upper { hi } else { lo };
        let (from, to) = if down { (t, t - ts) } else { (t - ts, t) };
        let mut pool = mk_pool(liq, 1000000, from, g[0], g[1], 0, 0, start, start, "r".to_string());
        let mut tl = mk_tick(lo, sign, change, change, 1, o[0], o[1], 0);
        let mut tu = mk_tick(hi, sign, change, change, 1, o[2], o[3], 0);
        let before = inside(lo, hi, &tl, &tu, &pool);
        // growth while the price is at `from`
        pool.fee_growth_global_x = pool.fee_growth_global_x.unchecked_add(FeeGrowth::new(gx));
        pool.fee_growth_global_y = pool.fee_growth_global_y.unchecked_add(FeeGrowth::new(gy));
        let r = if at_upper { tu.cross(&mut pool, now) } else { tl.cross(&mut pool, now) };
        if r.is_err() {
            return None;
        }
        pool.current_tick_index = to;
        Some((before, inside(lo, hi, &tl, &tu, &pool), pool.liquidity.get(), (tick_t(&tl), tick_t(&tu))))
    }
}
