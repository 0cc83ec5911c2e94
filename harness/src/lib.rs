//! Scenario functions: every `root_*` is executed symbolically from its MIR and, for replay, natively.
#![allow(warnings)]
#[macro_use]
pub mod codec;
pub mod world;
pub mod r_admin;
pub mod r_fee;
pub mod r_key;
pub mod r_list;
pub mod r_math;
pub mod r_nft;
pub mod r_pool;
pub mod r_query;
pub mod r_swap;

pub fn dispatch(name: &str, args: &[&str]) -> Option<String> {
    r_admin::disp_admin(name, args).or_else(|| r_list::disp_list(name, args)).or_else(|| r_key::disp_key(name, args)).or_else(|| r_fee::disp_fee(name, args)).or_else(|| r_math::disp_math(name, args))
        .or_else(|| r_nft::disp_nft(name, args))
        .or_else(|| r_pool::disp_pool(name, args))
        .or_else(|| r_swap::disp_swap(name, args))
        .or_else(|| r_query::disp_query(name, args))
}
