//! The whole minter canister, running against simulated ledgers, an EVM chain, an EVM RPC canister and
//! a management canister, with the message schedule, faults and upgrades under control of the generator.
#[path = "../../../build/ws/minter/src/main.rs"]
mod canister;

pub mod api;
pub mod case;
pub mod chain;
pub mod check;
pub mod config;
pub mod did;
pub mod ledger;
pub mod oracle;
pub mod run;
pub mod world;

pub type N = num_bigint::BigUint;
pub type Addr = [u8; 20];
pub fn n(v: u128) -> N {
    N::from(v)
}
