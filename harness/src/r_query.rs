use crate::r_pool::*;
use crate::world::*;
use cosmwasm_std::*;
use decimal::Decimal;
use oraiswap_v3::interface::*;
use oraiswap_v3::msg::*;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::state::*;
use oraiswap_v3::*;

/// stores the chunks starting at c0
fn put_chunks(s: &mut dyn Storage, key: &PoolKey, c0: u16, vals: &Vec<u64>) {
    let mut i = 0;
    while i < vals.len() {
        BITMAP.save(s, &bitmap_key(c0 + i as u16, key), &vals[i]).unwrap();
        i += 1;
    }
}
fn get_chunks(s: &dyn Storage, key: &PoolKey, c0: u16, n: usize) -> Vec<u64> {
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        v.push(BITMAP.load(s, &bitmap_key(c0 + i as u16, key)).unwrap_or(0));
        i += 1;
    }
    v
}

crate::roots! { disp_query;
    fn root_search(s, ts: u16, c0: u16, vals: Vec<u64>, tick: i32, up: bool) -> Option<i32> {
        let key = pkey(false, false, 5, ts);
        put_chunks(s, &key, c0, &vals);
        if up { next_initialized(s, tick, ts, &key) } else { prev_initialized(s, tick, ts, &key) }
    }
    // flips one tick; another pool's chunk of the same index holds `other`
    fn root_flip(s, ts: u16, c0: u16, vals: Vec<u64>, other: u64, tick: i32, on: bool) -> (bool, bool, bool, Vec<u64>, u64, bool) {
        let key = pkey(false, false, 5, ts);
        let key2 = pkey(false, false, 6, ts);
        put_chunks(s, &key, c0, &vals);
        put_chunks(s, &key2, c0, &vec![other]);
        let is = |s: &dyn Storage| match query(s, env(5, 5), QueryMsg::IsTickInitialized { key: key.clone(), index: tick }) {
            Ok(b) => (true, from_binary::<bool>(&b).unwrap()),
            Err(_) => (false, false),
        };
        let (ok1, before) = is(s);
        let r = flip_bitmap(s, on, tick, ts, &key).is_ok();
        let (ok2, after) = is(s);
        (r, before, after, get_chunks(s, &key, c0, vals.len()), get_chunks(s, &key2, c0, 1)[0], ok1 && ok2)
    }
    fn root_tickmap(s, ts: u16, c0: u16, vals: Vec<u64>, lower: i32, upper: i32, x_to_y: bool) -> Option<Vec<(u16, u64)>> {
        let key = pkey(false, false, 5, ts);
        put_chunks(s, &key, c0, &vals);
        match query(s, env(5, 5), QueryMsg::TickMap { pool_key: key.clone(), lower_tick_index: lower, upper_tick_index: upper, x_to_y }) {
            Ok(b) => Some(from_binary::<Vec<(u16, u64)>>(&b).unwrap()),
            Err(_) => None,
        }
    }
    fn root_ticks_amount(s, ts: u16, c0: u16, vals: Vec<u64>, lower: i32, upper: i32) -> Option<u32> {
        let key = pkey(false, false, 5, ts);
        put_chunks(s, &key, c0, &vals);
        match query(s, env(5, 5), QueryMsg::LiquidityTicksAmount { pool_key: key.clone(), lower_tick: lower, upper_tick: upper }) {
            Ok(b) => Some(from_binary::<u32>(&b).unwrap()),
            Err(_) => None,
        }
    }
}
