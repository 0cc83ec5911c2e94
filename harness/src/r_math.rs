use decimal::Decimal;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::*;

fn oa(r: Result<TokenAmount, ContractError>) -> Option<u128> {
    match r {
        Ok(x) => Some(x.get()),
        Err(_) => None,
    }
}

crate::roots! { disp_math;
    // (next price, in, out, fee, token amounts of the price move rounded up / down by the real delta functions)
    fn root_swap_step(s, cur: u128, target: u128, liq: u128, amount: u128, by_in: bool, fee: u64)
        -> Option<(u128, u128, u128, u128, Option<u128>, Option<u128>)> {
        let (c, t, l) = (SqrtPrice::new(cur), SqrtPrice::new(target), Liquidity::new(liq));
        match compute_swap_step(c, t, l, TokenAmount::new(amount), by_in, Percentage::new(fee)) {
            Ok(r) => {
                let n = r.next_sqrt_price;
                let (up, down) = if cur >= target {
                    (get_delta_x(n, c, l, true), get_delta_y(n, c, l, false))
                } else {
                    (get_delta_y(c, n, l, true), get_delta_x(c, n, l, false))
                };
                Some((n.get(), r.amount_in.get(), r.amount_out.get(), r.fee_amount.get(), oa(up), oa(down)))
            }
            Err(_) => None,
        }
    }
    fn root_price(s, tick: i32) -> Option<u128> {
        match oraiswap_v3::sqrt_price::calculate_sqrt_price(tick) { Ok(x) => Some(x.get()), Err(_) => None }
    }
    fn root_tick_at(s, price: u128, ts: u16) -> Option<i32> {
        match get_tick_at_sqrt_price(SqrtPrice::new(price), ts) { Ok(x) => Some(x), Err(_) => None }
    }
    fn root_delta_pair(s, is_x: bool, a: u128, b: u128, liq: u128) -> (Option<u128>, Option<u128>) {
        let (a, b, l) = (SqrtPrice::new(a), SqrtPrice::new(b), Liquidity::new(liq));
        if is_x { (oa(get_delta_x(a, b, l, true)), oa(get_delta_x(a, b, l, false))) } else { (oa(get_delta_y(a, b, l, true)), oa(get_delta_y(a, b, l, false))) }
    }
    fn root_delta(s, is_x: bool, a: u128, b: u128, liq: u128, up: bool) -> Option<u128> {
        let (a, b, l) = (SqrtPrice::new(a), SqrtPrice::new(b), Liquidity::new(liq));
        oa(if is_x { get_delta_x(a, b, l, up) } else { get_delta_y(a, b, l, up) })
    }
}
