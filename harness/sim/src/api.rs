//! The minter's public candid interface, written down independently of its code (fields and variants as in its .did).
#![allow(clippy::large_enum_variant)]
use candid::{CandidType, Deserialize, Nat, Principal};
use icrc_ledger_types::icrc1::account::Account;
use serde_bytes::ByteBuf;

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Eip1559TransactionPriceArg {
    pub erc20_ledger_id: Principal,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Eip1559TransactionPrice {
    pub gas_limit: Nat,
    pub max_fee_per_gas: Nat,
    pub max_priority_fee_per_gas: Nat,
    pub max_transaction_fee: Nat,
    pub timestamp: Option<u64>,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Erc20Token {
    pub erc20_token_symbol: String,
    pub erc20_contract_address: String,
    pub ledger_canister_id: Principal,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Erc20Balance {
    pub erc20_contract_address: String,
    pub balance: Nat,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct MinterInfo {
    pub minter_address: Option<String>,
    pub helper_smart_contract_address: Option<String>,
    pub supported_erc20_tokens: Option<Vec<Erc20Token>>,
    pub minimum_withdrawal_amount: Option<Nat>,
    pub deposit_native_fee: Option<Nat>,
    pub withdrawal_native_fee: Option<Nat>,
    pub block_height: Option<CandidBlockTag>,
    pub last_observed_block_number: Option<Nat>,
    pub native_balance: Option<Nat>,
    pub last_gas_fee_estimate: Option<GasFeeEstimate>,
    pub erc20_balances: Option<Vec<Erc20Balance>>,
    pub last_scraped_block_number: Option<Nat>,
    pub native_twin_token_ledger_id: Option<Principal>,
    pub swap_canister_id: Option<Principal>,
    pub ledger_suite_manager_id: Option<Principal>,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct GasFeeEstimate {
    pub max_fee_per_gas: Nat,
    pub max_priority_fee_per_gas: Nat,
    pub timestamp: u64,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Transaction {
    pub transaction_hash: String,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct RetrieveNativeRequest {
    pub block_index: Nat,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum CandidBlockTag {
    Latest,
    Safe,
    Finalized,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum RetrieveWithdrawalStatus {
    NotFound,
    Pending,
    TxCreated,
    TxSent(Transaction),
    TxFinalized(TxFinalizedStatus),
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum TxFinalizedStatus {
    Success {
        transaction_hash: String,
        effective_transaction_fee: Option<Nat>,
    },
    PendingReimbursement(Transaction),
    Reimbursed {
        transaction_hash: String,
        reimbursed_amount: Nat,
        reimbursed_in_block: Nat,
    },
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct WithdrawalArg {
    pub amount: Nat,
    pub recipient: String,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum WithdrawalError {
    AmountTooLow { min_withdrawal_amount: Nat },
    InsufficientFunds { balance: Nat },
    InsufficientAllowance { allowance: Nat },
    TemporarilyUnavailable(String),
    InvalidDestination(String),
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum WithdrawalSearchParameter {
    ByWithdrawalId(u64),
    ByRecipient(String),
    BySenderAccount(Account),
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct WithdrawalDetail {
    pub withdrawal_id: u64,
    pub recipient_address: String,
    pub from: Principal,
    pub from_subaccount: Option<[u8; 32]>,
    pub token_symbol: String,
    pub withdrawal_amount: Nat,
    pub max_transaction_fee: Option<Nat>,
    pub status: WithdrawalStatus,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum WithdrawalStatus {
    Pending,
    TxCreated,
    TxSent(Transaction),
    TxFinalized(TxFinalizedStatus),
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct AddErc20Token {
    pub chain_id: Nat,
    pub address: String,
    pub erc20_token_symbol: String,
    pub erc20_ledger_id: Principal,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum RequestScrapingError {
    CalledTooManyTimes,
    InvalidBlockNumber,
    BlockAlreadyObserved,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct GetEventsArg {
    pub start: u64,
    pub length: u64,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct GetEventsResult {
    pub events: Vec<Event>,
    pub total_event_count: u64,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Event {
    pub timestamp: u64,
    pub payload: EventPayload,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct EventSource {
    pub transaction_hash: String,
    pub log_index: Nat,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum ReimbursementIndex {
    Native {
        ledger_burn_index: Nat,
    },
    Erc20 {
        native_ledger_burn_index: Nat,
        ledger_id: Principal,
        erc20_ledger_burn_index: Nat,
    },
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct AccessListItem {
    pub address: String,
    pub storage_keys: Vec<ByteBuf>,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct UnsignedTransaction {
    pub chain_id: Nat,
    pub nonce: Nat,
    pub max_priority_fee_per_gas: Nat,
    pub max_fee_per_gas: Nat,
    pub gas_limit: Nat,
    pub destination: String,
    pub value: Nat,
    pub data: ByteBuf,
    pub access_list: Vec<AccessListItem>,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum TransactionStatus {
    Success,
    Failure,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct TransactionReceipt {
    pub block_hash: String,
    pub block_number: Nat,
    pub effective_gas_price: Nat,
    pub gas_used: Nat,
    pub status: TransactionStatus,
    pub transaction_hash: String,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum EventPayload {
    Init(InitArg),
    Upgrade(UpgradeArg),
    AcceptedDeposit {
        transaction_hash: String,
        block_number: Nat,
        log_index: Nat,
        from_address: String,
        value: Nat,
        principal: Principal,
        subaccount: Option<[u8; 32]>,
    },
    AcceptedErc20Deposit {
        transaction_hash: String,
        block_number: Nat,
        log_index: Nat,
        from_address: String,
        value: Nat,
        principal: Principal,
        erc20_contract_address: String,
        subaccount: Option<[u8; 32]>,
    },
    InvalidDeposit {
        event_source: EventSource,
        reason: String,
    },
    MintedNative {
        event_source: EventSource,
        mint_block_index: Nat,
    },
    SyncedToBlock {
        block_number: Nat,
    },

    AcceptedNativeWithdrawalRequest {
        withdrawal_amount: Nat,
        destination: String,
        ledger_burn_index: Nat,
        from: Principal,
        from_subaccount: Option<[u8; 32]>,
        created_at: Option<u64>,
    },
    CreatedTransaction {
        withdrawal_id: Nat,
        transaction: UnsignedTransaction,
    },
    SignedTransaction {
        withdrawal_id: Nat,
        raw_transaction: String,
    },
    ReplacedTransaction {
        withdrawal_id: Nat,
        transaction: UnsignedTransaction,
    },
    FinalizedTransaction {
        withdrawal_id: Nat,
        transaction_receipt: TransactionReceipt,
    },
    ReimbursedNativeWithdrawal {
        reimbursed_in_block: Nat,
        withdrawal_id: Nat,
        reimbursed_amount: Nat,
        transaction_hash: Option<String>,
    },
    ReimbursedErc20Withdrawal {
        withdrawal_id: Nat,
        burn_in_block: Nat,
        reimbursed_in_block: Nat,
        ledger_id: Principal,
        reimbursed_amount: Nat,
        transaction_hash: Option<String>,
    },
    SkippedBlock {
        block_number: Nat,
    },
    AddedErc20Token {
        chain_id: Nat,
        address: String,
        erc20_token_symbol: String,
        erc20_ledger_id: Principal,
    },
    AcceptedErc20WithdrawalRequest {
        max_transaction_fee: Nat,
        withdrawal_amount: Nat,
        erc20_contract_address: String,
        destination: String,
        native_ledger_burn_index: Nat,
        erc20_ledger_id: Principal,
        erc20_ledger_burn_index: Nat,
        from: Principal,
        from_subaccount: Option<[u8; 32]>,
        created_at: u64,
    },
    FailedErc20WithdrawalRequest {
        withdrawal_id: Nat,
        reimbursed_amount: Nat,
        to: Principal,
        to_subaccount: Option<[u8; 32]>,
    },
    MintedErc20 {
        event_source: EventSource,
        mint_block_index: Nat,
        erc20_token_symbol: String,
        erc20_contract_address: String,
    },
    QuarantinedDeposit {
        event_source: EventSource,
    },
    QuarantinedReimbursement {
        index: ReimbursementIndex,
    },
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct WithdrawErc20Arg {
    pub amount: Nat,
    pub erc20_ledger_id: Principal,
    pub recipient: String,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct RetrieveErc20Request {
    pub native_block_index: Nat,
    pub erc20_block_index: Nat,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum WithdrawErc20Error {
    TokenNotSupported {
        supported_tokens: Vec<Erc20Token>,
    },

    NativeLedgerError {
        error: LedgerError,
    },

    NativeFeeTransferError {
        error: FeeError,
    },
    Erc20LedgerError {
        native_block_index: Nat,
        error: LedgerError,
    },
    TemporarilyUnavailable(String),
    InvalidDestination(String),
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum LedgerError {
    InsufficientFunds {
        balance: Nat,
        failed_burn_amount: Nat,
        token_symbol: String,
        ledger_id: Principal,
    },
    AmountTooLow {
        minimum_burn_amount: Nat,
        failed_burn_amount: Nat,
        token_symbol: String,
        ledger_id: Principal,
    },
    InsufficientAllowance {
        allowance: Nat,
        failed_burn_amount: Nat,
        token_symbol: String,
        ledger_id: Principal,
    },
    TemporarilyUnavailable(String),
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum FeeError {
    InsufficientFunds {
        balance: Nat,
        failed_transfer_amount: Nat,
        token_symbol: String,
        ledger_id: Principal,
    },
    AmountTooLow {
        minimum_transfer_amount: Nat,
        failed_transfer_amount: Nat,
        token_symbol: String,
        ledger_id: Principal,
    },
    InsufficientAllowance {
        allowance: Nat,
        failed_transfer_amount: Nat,
        token_symbol: String,
        ledger_id: Principal,
    },
    TemporarilyUnavailable(String),
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct InitArg {
    pub evm_network: EvmNetwork,
    pub ecdsa_key_name: String,
    pub helper_contract_address: Option<String>,
    pub native_ledger_id: Principal,
    pub native_index_id: Principal,
    pub native_symbol: String,
    pub block_height: CandidBlockTag,
    pub native_minimum_withdrawal_amount: Nat,
    pub native_ledger_transfer_fee: Nat,
    pub next_transaction_nonce: Nat,
    pub last_scraped_block_number: Nat,
    pub min_max_priority_fee_per_gas: Nat,
    pub ledger_suite_manager_id: Principal,
    pub deposit_native_fee: Nat,
    pub withdrawal_native_fee: Nat,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq, Default)]
pub struct UpgradeArg {
    pub next_transaction_nonce: Option<Nat>,
    pub native_minimum_withdrawal_amount: Option<Nat>,
    pub helper_contract_address: Option<String>,
    pub block_height: Option<CandidBlockTag>,
    pub last_scraped_block_number: Option<Nat>,
    pub evm_rpc_id: Option<Principal>,
    pub native_ledger_transfer_fee: Option<Nat>,
    pub min_max_priority_fee_per_gas: Option<Nat>,
    pub deposit_native_fee: Option<Nat>,
    pub withdrawal_native_fee: Option<Nat>,
}

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum MinterArg {
    InitArg(InitArg),
    UpgradeArg(UpgradeArg),
}

#[derive(CandidType, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum EvmNetwork {
    Ethereum,
    Sepolia,
    ArbitrumOne,
    BSC,
    BSCTestnet,
    Polygon,
    Optimism,
    Base,
    Avalanche,
    Fantom,
}
