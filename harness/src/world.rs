//! Scenario helpers: a contract instance over a storage, driven through its entry points.
use cosmwasm_std::*;
use cw20::{Cw20ExecuteMsg, Expiration};
use decimal::Decimal;
use oraiswap_v3::fee_growth::FeeGrowth;
use oraiswap_v3::interface::*;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::*;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::*;

/// Address validation stand-in: every string is an address except those ending in 'n' (native denoms).
pub struct VApi;
impl Api for VApi {
    fn addr_validate(&self, s: &str) -> StdResult<Addr> {
        match s.as_bytes().last() {
            Some(b'n') | None => Err(StdError::generic_err("native")),
            _ => Ok(Addr::unchecked(s)),
        }
    }
    fn addr_canonicalize(&self, _: &str) -> StdResult<CanonicalAddr> {
        unimplemented!()
    }
    fn addr_humanize(&self, _: &CanonicalAddr) -> StdResult<Addr> {
        unimplemented!()
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}
pub struct VQ;
impl Querier for VQ {
    fn raw_query(&self, _: &[u8]) -> QuerierResult {
        unimplemented!()
    }
}

pub fn env(height: u64, nanos: u64) -> Env {
    Env {
        block: BlockInfo { height, time: Timestamp::from_nanos(nanos), chain_id: String::new() },
        transaction: None,
        contract: ContractInfo { address: Addr::unchecked("contract") },
    }
}

pub fn info(sender: &str, funds: Vec<Coin>) -> MessageInfo {
    MessageInfo { sender: Addr::unchecked(sender), funds }
}

pub fn exec(s: &mut dyn Storage, env: Env, info: MessageInfo, msg: ExecuteMsg) -> Result<Response, ContractError> {
    let deps = DepsMut { storage: s, api: &VApi, querier: QuerierWrapper::new(&VQ) };
    contract::execute(deps, env, info, msg)
}
pub fn query(s: &dyn Storage, env: Env, msg: QueryMsg) -> StdResult<Binary> {
    let deps = Deps { storage: s, api: &VApi, querier: QuerierWrapper::new(&VQ) };
    contract::query(deps, env, msg)
}

/// (kind, token, from, to, amount): 0 cw20 transfer, 1 cw20 transfer_from, 2 bank send, 9 anything else
pub type M = (u8, String, String, String, u128);

pub fn decode_msgs(r: &Response) -> Vec<M> {
    let mut out = vec![];
    for m in &r.messages {
        match &m.msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                if !funds.is_empty() {
                    out.push((9, contract_addr.clone(), String::new(), String::new(), 0));
                    continue;
                }
                match from_binary::<Cw20ExecuteMsg>(msg) {
                    Ok(Cw20ExecuteMsg::Transfer { recipient, amount }) => {
                        out.push((0, contract_addr.clone(), String::new(), recipient, amount.u128()))
                    }
                    Ok(Cw20ExecuteMsg::TransferFrom { owner, recipient, amount }) => {
                        out.push((1, contract_addr.clone(), owner, recipient, amount.u128()))
                    }
                    _ => out.push((9, contract_addr.clone(), String::new(), String::new(), 0)),
                }
            }
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                for c in amount {
                    out.push((2, c.denom.clone(), String::new(), to_address.clone(), c.amount.u128()))
                }
            }
            _ => out.push((9, String::new(), String::new(), String::new(), 0)),
        }
    }
    out
}

/// contracts called by the response
pub fn wasm_targets(r: &Response) -> Vec<M> {
    let mut out = vec![];
    for m in &r.messages {
        match &m.msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, .. }) => {
                out.push((8, contract_addr.clone(), String::new(), String::new(), 0))
            }
            _ => out.push((9, String::new(), String::new(), String::new(), 0)),
        }
    }
    out
}

pub fn tok(first: bool, native: bool) -> String {
    if first {
        if native { "axn".to_string() } else { "axc".to_string() }
    } else {
        if native { "byn".to_string() } else { "byc".to_string() }
    }
}
pub fn tier(fee: u64, ts: u16) -> FeeTier {
    FeeTier { fee: Percentage::new(fee), tick_spacing: ts }
}
pub fn pkey(xn: bool, yn: bool, fee: u64, ts: u16) -> PoolKey {
    PoolKey { token_x: tok(true, xn), token_y: tok(false, yn), fee_tier: tier(fee, ts) }
}

/// (liquidity, sqrt_price, tick, fgx, fgy, protocol_x, protocol_y, start, last)
pub type PoolT = (u128, u128, i32, u128, u128, u128, u128, u64, u64);
pub fn pool_t(p: &Pool) -> PoolT {
    (
        p.liquidity.get(), p.sqrt_price.get(), p.current_tick_index,
        p.fee_growth_global_x.get(), p.fee_growth_global_y.get(),
        p.fee_protocol_token_x.get(), p.fee_protocol_token_y.get(),
        p.start_timestamp, p.last_timestamp,
    )
}
pub fn mk_pool(liq: u128, sp: u128, tick: i32, fgx: u128, fgy: u128, px: u128, py: u128, start: u64, last: u64, recv: String) -> Pool {
    Pool {
        liquidity: Liquidity::new(liq),
        sqrt_price: SqrtPrice::new(sp),
        current_tick_index: tick,
        fee_growth_global_x: FeeGrowth::new(fgx),
        fee_growth_global_y: FeeGrowth::new(fgy),
        fee_protocol_token_x: TokenAmount::new(px),
        fee_protocol_token_y: TokenAmount::new(py),
        start_timestamp: start,
        last_timestamp: last,
        fee_receiver: recv,
    }
}
/// (index, sign, change, gross, sqrt_price, fox, foy, seconds_outside)
pub type TickT = (i32, bool, u128, u128, u128, u128, u128, u64);
pub fn tick_t(t: &Tick) -> TickT {
    (
        t.index, t.sign, t.liquidity_change.get(), t.liquidity_gross.get(), t.sqrt_price.get(),
        t.fee_growth_outside_x.get(), t.fee_growth_outside_y.get(), t.seconds_outside,
    )
}
pub fn mk_tick(index: i32, sign: bool, change: u128, gross: u128, sp: u128, fox: u128, foy: u128, so: u64) -> Tick {
    Tick {
        index, sign,
        liquidity_change: Liquidity::new(change),
        liquidity_gross: Liquidity::new(gross),
        sqrt_price: SqrtPrice::new(sp),
        fee_growth_outside_x: FeeGrowth::new(fox),
        fee_growth_outside_y: FeeGrowth::new(foy),
        seconds_outside: so,
    }
}
/// (liquidity, lower, upper, fgix, fgiy, block, owed_x, owed_y, approvals)
pub type PosT = (u128, i32, i32, u128, u128, u64, u128, u128, Vec<(String, u8, u64)>);
pub fn pos_t(p: &Position) -> PosT {
    (
        p.liquidity.get(), p.lower_tick_index, p.upper_tick_index,
        p.fee_growth_inside_x.get(), p.fee_growth_inside_y.get(), p.last_block_number,
        p.tokens_owed_x.get(), p.tokens_owed_y.get(), apps_t(&p.approvals),
    )
}
pub fn apps_t(v: &Vec<Approval>) -> Vec<(String, u8, u64)> {
    let mut out = vec![];
    for a in v {
        let (k, x) = exp_t(&a.expires);
        out.push((a.spender.to_string(), k, x));
    }
    out
}
pub fn exp_t(e: &Expiration) -> (u8, u64) {
    match e {
        Expiration::AtHeight(h) => (0, *h),
        Expiration::AtTime(t) => (1, t.nanos()),
        Expiration::Never {} => (2, 0),
    }
}
pub fn mk_exp(k: u8, v: u64) -> Option<Expiration> {
    match k {
        0 => Some(Expiration::AtHeight(v)),
        1 => Some(Expiration::AtTime(Timestamp::from_nanos(v))),
        2 => Some(Expiration::Never {}),
        _ => None,
    }
}
pub fn mk_pos(key: PoolKey, liq: u128, lower: i32, upper: i32, fgx: u128, fgy: u128, block: u64, ox: u128, oy: u128) -> Position {
    Position {
        pool_key: key,
        liquidity: Liquidity::new(liq),
        lower_tick_index: lower,
        upper_tick_index: upper,
        fee_growth_inside_x: FeeGrowth::new(fgx),
        fee_growth_inside_y: FeeGrowth::new(fgy),
        last_block_number: block,
        tokens_owed_x: TokenAmount::new(ox),
        tokens_owed_y: TokenAmount::new(oy),
        approvals: vec![],
    }
}
pub fn coin(denom: &str, amount: u128) -> Coin {
    Coin { denom: denom.to_string(), amount: Uint128::new(amount) }
}
/// coins attached to a call: each amount is attached only when `has` is set
pub fn funds(hx: bool, fx: u128, hy: bool, fy: u128) -> Vec<Coin> {
    let mut v = vec![];
    if hx {
        v.push(coin("axn", fx));
    }
    if hy {
        v.push(coin("byn", fy));
    }
    v
}
