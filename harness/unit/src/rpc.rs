//! States of the minter for the unit-level checks.
use crate::U;
pub use kit::rpc::*;

/// A minter state for one network, made from ordinary install arguments.
pub fn state(network: evm_minter::evm_config::EvmNetwork, min_priority: &U) -> evm_minter::state::State {
    use candid::{Nat, Principal};
    let p = |n: u8| Principal::from_slice(&[n; 10]);
    evm_minter::lifecycle::InitArg {
        evm_network: network,
        ecdsa_key_name: "key_1".into(),
        helper_contract_address: None,
        native_ledger_id: p(1),
        native_index_id: p(2),
        native_symbol: "icETH".into(),
        block_height: evm_minter::endpoints::CandidBlockTag::Finalized,
        native_minimum_withdrawal_amount: Nat::from(30_000_000_000_000_000u64),
        native_ledger_transfer_fee: Nat::from(1_000u64),
        next_transaction_nonce: Nat::from(0u8),
        last_scraped_block_number: Nat::from(0u8),
        min_max_priority_fee_per_gas: Nat(min_priority.0.clone()),
        ledger_suite_manager_id: p(3),
        deposit_native_fee: Nat::from(0u8),
        withdrawal_native_fee: Nat::from(0u8),
    }
    .try_into()
    .expect("valid install arguments")
}

pub const NETWORKS: [(evm_minter::evm_config::EvmNetwork, u64); 10] = {
    use evm_minter::evm_config::EvmNetwork::*;
    [
        (Ethereum, 1),
        (Sepolia, 11155111),
        (ArbitrumOne, 42161),
        (BSC, 56),
        (BSCTestnet, 97),
        (Polygon, 137),
        (Optimism, 10),
        (Base, 8453),
        (Avalanche, 43114),
        (Fantom, 250),
    ]
};
