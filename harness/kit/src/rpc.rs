//! Answers of the EVM RPC canister.
use crate::U;
use evm_rpc_types::*;

pub fn nat(u: &U) -> Nat256 {
    Nat256::from_be_bytes(u.be32())
}

/// `salt` varies the fields that carry no meaning for the minter.
pub fn block(number: Nat256, base_fee: Option<Nat256>, salt: u8) -> Block {
    let h = Hex32::from([salt; 32]);
    Block {
        base_fee_per_gas: base_fee,
        number,
        difficulty: None,
        extra_data: Hex::from(vec![]),
        gas_limit: Nat256::from(30_000_000u64),
        gas_used: Nat256::from(1u64),
        hash: h.clone(),
        logs_bloom: Hex256::from([0; 256]),
        miner: Hex20::from([0; 20]),
        mix_hash: h.clone(),
        nonce: Nat256::from(0u64),
        parent_hash: h.clone(),
        receipts_root: h.clone(),
        sha3_uncles: h.clone(),
        size: Nat256::from(1u64),
        state_root: h,
        timestamp: Nat256::from(1u64),
        total_difficulty: None,
        transactions: vec![],
        transactions_root: None,
        uncles: vec![],
    }
}

pub fn receipt(hash: [u8; 32], block: Nat256, price: Nat256, used: Nat256, status: Option<Nat256>, salt: u8) -> TransactionReceipt {
    TransactionReceipt {
        block_hash: Hex32::from([salt; 32]),
        block_number: block,
        effective_gas_price: price,
        gas_used: used,
        status,
        transaction_hash: Hex32::from(hash),
        contract_address: None,
        from: Hex20::from([0; 20]),
        logs: vec![],
        logs_bloom: Hex256::from([0; 256]),
        to: None,
        transaction_index: Nat256::from(0u64),
        tx_type: HexByte::from(2u8),
    }
}

/// Chain ids in the order in which the checks number the networks.
pub const CHAIN_IDS: [u64; 10] = [1, 11155111, 42161, 56, 97, 137, 10, 8453, 43114, 250];
