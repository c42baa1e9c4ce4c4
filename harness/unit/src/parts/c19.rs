//! C19: the persisted event log keeps every event and its format stable.
use candid::{Nat, Principal};
use evm_minter::deposit_logs::{EventSource, LedgerSubaccount, ReceivedErc20Event, ReceivedNativeEvent};
use evm_minter::endpoints::CandidBlockTag;
use evm_minter::erc20::{ERC20Token, ERC20TokenSymbol};
use evm_minter::eth_types::Address;
use evm_minter::lifecycle::{InitArg, UpgradeArg};
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::{Hash, TransactionReceipt, TransactionStatus};
use evm_minter::state::event::{Event, EventType};
use evm_minter::state::transactions::{Erc20WithdrawalRequest, NativeWithdrawalRequest, Reimbursed, ReimbursementIndex, ReimbursementRequest, Subaccount};
use evm_minter::storage::{record_event, total_event_count, with_event_iter};
use evm_minter::tx::{AccessList, AccessListItem, Eip1559Signature, Eip1559TransactionRequest, SignedEip1559TransactionRequest, StorageKey};
use ic_stable_structures::storable::Storable;
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use crate::{rpc::NETWORKS, u256, uint, U, V};

/// Material for one event of any kind.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    kind: u8,
    time: u64,
    n: Vec<U>,
    wide: Vec<U>,
    id: Vec<u64>,
    addr: Vec<[u8; 20]>,
    hash: Vec<[u8; 32]>,
    prin: Vec<Vec<u8>>,
    opt: Vec<bool>,
    text: Vec<String>,
    data: Vec<u8>,
    net: u8,
    tag: u8,
    flag: bool,
    acl: Vec<([u8; 20], Vec<[u8; 32]>)>,
}
fn raw() -> BoxedStrategy<Raw> {
    let text = prop_oneof![3 => "[ -~]{0,30}", 1 => "\\PC{0,20}", 1 => Just(String::new()), 1 => (0usize..300).prop_map(|n| "s".repeat(n))];
    let hash = prop_oneof![4 => any::<[u8; 32]>(), 1 => Just([0; 32])];
    let id = prop_oneof![2 => 0u64..30, 1 => any::<u64>(), 1 => (0u32..64, 0u64..3).prop_map(|(s, d)| (1u64 << s).wrapping_sub(d))];
    (
        (0u8..21, any::<u64>(), prop::collection::vec(u256(), 6), prop::collection::vec(prop_oneof![9 => u256(), 1 => uint(320)], 10)),
        (prop::collection::vec(id, 4), prop::collection::vec(any::<[u8; 20]>(), 3), prop::collection::vec(hash, 2), prop::collection::vec(prop::collection::vec(any::<u8>(), 0..30), 3)),
        (prop::collection::vec(any::<bool>(), 11), prop::collection::vec(text, 4), prop::collection::vec(any::<u8>(), 0..200), 0u8..10, 0u8..3, any::<bool>()),
        prop::collection::vec((any::<[u8; 20]>(), prop::collection::vec(any::<[u8; 32]>(), 0..3)), 0..3),
    )
        .prop_map(|((kind, time, n, wide), (id, addr, hash, prin), (opt, text, data, net, tag, flag), acl)| Raw {
            kind, time, n, wide, id, addr, hash,
            prin: prin.into_iter().map(|mut p| { p.truncate(29); p }).collect(),
            opt, text, data, net, tag, flag, acl,
        })
        .boxed()
}

/// The event and its established encoding.
fn build(r: &Raw) -> (EventType, V) {
    let p = |i: usize| Principal::from_slice(&r.prin[i]);
    let pv = |i: usize| V::b(&r.prin[i]);
    let a = |i: usize| Address::new(r.addr[i]);
    let av = |i: usize| V::b(&r.addr[i]);
    let h = |i: usize| Hash(r.hash[i]);
    let hv = |i: usize| V::b(&r.hash[i]);
    let be = |i: usize| r.n[i].be32();
    let nv = |i: usize| V::n(&r.n[i]);
    let nat = |i: usize| Nat(r.wide[i].0.clone());
    let natv = |i: usize| V::n(&r.wide[i]);
    let burn = |i: usize| LedgerBurnIndex::new(r.id[i]);
    let mint = |i: usize| LedgerMintIndex::new(r.id[i]);
    let iv = |i: usize| V::Int(r.id[i]);
    let o = |i: usize| r.opt[i];
    let (net, chain) = NETWORKS[r.net as usize];
    let tag = [CandidBlockTag::Latest, CandidBlockTag::Safe, CandidBlockTag::Finalized][r.tag as usize].clone();
    let tagv = V::Int(r.tag as u64);
    let source = || EventSource { transaction_hash: h(0), log_index: LogIndex::from_be_bytes(be(0)) };
    let sourcev = || V::Rec(vec![hv(0), nv(0)]);
    let sub = || o(0).then(|| Subaccount(r.hash[1]));
    let subv = || V::opt(o(0).then(|| hv(1)));
    let lsub = || if o(0) { LedgerSubaccount::from_bytes(r.hash[1]) } else { None };
    let lsubv = || V::opt((o(0) && r.hash[1] != [0; 32]).then(|| V::Rec(vec![V::Nat(num_bigint::BigUint::from_bytes_be(&r.hash[1]))])));
    let tx = || Eip1559TransactionRequest {
        chain_id: r.id[1],
        nonce: TransactionNonce::from_be_bytes(be(1)),
        max_priority_fee_per_gas: WeiPerGas::from_be_bytes(be(2)),
        max_fee_per_gas: WeiPerGas::from_be_bytes(be(3)),
        gas_limit: GasAmount::from_be_bytes(be(4)),
        destination: a(0),
        amount: Wei::from_be_bytes(be(5)),
        data: r.data.clone(),
        access_list: AccessList(r.acl.iter().map(|(x, k)| AccessListItem { address: Address::new(*x), storage_keys: k.iter().map(|k| StorageKey(*k)).collect() }).collect()),
    };
    let txv = || V::Rec(vec![
        iv(1), nv(1), nv(2), nv(3), nv(4), av(0), nv(5), V::b(&r.data),
        V::List(r.acl.iter().map(|(x, k)| V::Rec(vec![V::b(x), V::List(k.iter().map(|k| V::b(k)).collect())])).collect()),
    ]);
    let big = |b: &[u8; 32]| V::Nat(num_bigint::BigUint::from_bytes_be(b));
    let reimbursed = || Reimbursed { reimbursed_in_block: mint(0), burn_in_block: burn(1), reimbursed_amount: Erc20TokenAmount::from_be_bytes(be(0)), transaction_hash: o(1).then(|| h(0)) };
    let reimbursedv = || V::Rec(vec![iv(0), iv(1), nv(0), V::opt(o(1).then(|| hv(0)))]);
    match r.kind {
        0 => (
            EventType::Init(InitArg {
                evm_network: net,
                ecdsa_key_name: r.text[0].clone(),
                helper_contract_address: o(0).then(|| r.text[1].clone()),
                native_ledger_id: p(0),
                native_index_id: p(1),
                native_symbol: r.text[2].clone(),
                block_height: tag,
                native_minimum_withdrawal_amount: nat(0),
                native_ledger_transfer_fee: nat(1),
                next_transaction_nonce: nat(2),
                last_scraped_block_number: nat(3),
                min_max_priority_fee_per_gas: nat(4),
                ledger_suite_manager_id: p(2),
                deposit_native_fee: nat(5),
                withdrawal_native_fee: nat(6),
            }),
            V::variant(0, vec![V::Rec(vec![
                V::Int(chain), V::t(&r.text[0]), V::opt(o(0).then(|| V::t(&r.text[1]))), pv(0), pv(1), V::t(&r.text[2]), tagv,
                natv(0), natv(1), natv(2), natv(3), natv(4), pv(2), natv(5), natv(6),
            ])]),
        ),
        1 => (
            EventType::Upgrade(UpgradeArg {
                next_transaction_nonce: o(0).then(|| nat(0)),
                native_minimum_withdrawal_amount: o(1).then(|| nat(1)),
                helper_contract_address: o(2).then(|| r.text[0].clone()),
                block_height: o(3).then_some(tag),
                last_scraped_block_number: o(4).then(|| nat(2)),
                evm_rpc_id: o(5).then(|| p(0)),
                native_ledger_transfer_fee: o(6).then(|| nat(3)),
                min_max_priority_fee_per_gas: o(7).then(|| nat(4)),
                deposit_native_fee: o(8).then(|| nat(5)),
                withdrawal_native_fee: o(9).then(|| nat(6)),
            }),
            V::variant(1, vec![V::Rec(vec![
                V::opt(o(0).then(|| natv(0))), V::opt(o(1).then(|| natv(1))), V::opt(o(2).then(|| V::t(&r.text[0]))), V::opt(o(3).then_some(tagv)),
                V::opt(o(4).then(|| natv(2))), V::opt(o(5).then(|| pv(0))), V::opt(o(6).then(|| natv(3))), V::opt(o(7).then(|| natv(4))),
                V::opt(o(8).then(|| natv(5))), V::opt(o(9).then(|| natv(6))),
            ])]),
        ),
        2 => (
            EventType::AcceptedDeposit(ReceivedNativeEvent {
                transaction_hash: h(0),
                block_number: BlockNumber::from_be_bytes(be(1)),
                log_index: LogIndex::from_be_bytes(be(0)),
                from_address: a(0),
                value: Wei::from_be_bytes(be(2)),
                principal: p(0),
                subaccount: lsub(),
            }),
            V::variant(2, vec![V::Rec(vec![hv(0), nv(1), nv(0), av(0), nv(2), pv(0), lsubv()])]),
        ),
        3 => (EventType::InvalidDeposit { event_source: source(), reason: r.text[0].clone() }, V::variant(4, vec![sourcev(), V::t(&r.text[0])])),
        4 => (EventType::MintedNative { event_source: source(), mint_block_index: mint(0) }, V::variant(5, vec![sourcev(), iv(0)])),
        5 => (EventType::SyncedToBlock { block_number: BlockNumber::from_be_bytes(be(0)) }, V::variant(6, vec![nv(0)])),
        6 => (
            EventType::AcceptedNativeWithdrawalRequest(NativeWithdrawalRequest {
                withdrawal_amount: Wei::from_be_bytes(be(0)),
                destination: a(0),
                ledger_burn_index: burn(0),
                from: p(0),
                from_subaccount: sub(),
                created_at: o(1).then_some(r.id[1]),
            }),
            V::variant(7, vec![V::Rec(vec![nv(0), av(0), iv(0), pv(0), subv(), V::opt(o(1).then(|| iv(1)))])]),
        ),
        7 => (EventType::CreatedTransaction { withdrawal_id: burn(0), transaction: tx() }, V::variant(8, vec![iv(0), txv()])),
        8 => (
            EventType::SignedTransaction {
                withdrawal_id: burn(0),
                transaction: SignedEip1559TransactionRequest::new(tx(), Eip1559Signature { signature_y_parity: r.flag, r: ethnum::u256::from_be_bytes(r.hash[0]), s: ethnum::u256::from_be_bytes(r.hash[1]) }),
            },
            V::variant(9, vec![iv(0), V::Rec(vec![txv(), V::Rec(vec![V::Bool(r.flag), big(&r.hash[0]), big(&r.hash[1])])])]),
        ),
        9 => (EventType::ReplacedTransaction { withdrawal_id: burn(0), transaction: tx() }, V::variant(10, vec![iv(0), txv()])),
        10 => (
            EventType::FinalizedTransaction {
                withdrawal_id: burn(0),
                transaction_receipt: TransactionReceipt {
                    block_hash: h(0),
                    block_number: BlockNumber::from_be_bytes(be(0)),
                    effective_gas_price: WeiPerGas::from_be_bytes(be(1)),
                    gas_used: GasAmount::from_be_bytes(be(2)),
                    status: if r.flag { TransactionStatus::Success } else { TransactionStatus::Failure },
                    transaction_hash: h(1),
                },
            },
            V::variant(11, vec![iv(0), V::Rec(vec![hv(0), nv(0), nv(1), nv(2), V::variant(!r.flag as u64, vec![]), hv(1)])]),
        ),
        11 => (EventType::ReimbursedNativeWithdrawal(reimbursed()), V::variant(12, vec![reimbursedv()])),
        12 => (
            EventType::AddedErc20Token(ERC20Token { chain_id: net, erc20_contract_address: a(0), erc20_token_symbol: ERC20TokenSymbol::new(r.text[0].clone()), erc20_ledger_id: p(0) }),
            V::variant(14, vec![V::Rec(vec![V::Int(chain), av(0), V::t(&r.text[0]), pv(0)])]),
        ),
        13 => (
            EventType::AcceptedErc20Deposit(ReceivedErc20Event {
                transaction_hash: h(0),
                block_number: BlockNumber::from_be_bytes(be(1)),
                log_index: LogIndex::from_be_bytes(be(0)),
                from_address: a(0),
                value: Erc20Value::from_be_bytes(be(2)),
                principal: p(0),
                erc20_contract_address: a(1),
                subaccount: lsub(),
            }),
            V::variant(15, vec![V::Rec(vec![hv(0), nv(1), nv(0), av(0), nv(2), pv(0), av(1), lsubv()])]),
        ),
        14 => (
            EventType::AcceptedErc20WithdrawalRequest(Erc20WithdrawalRequest {
                max_transaction_fee: Wei::from_be_bytes(be(0)),
                withdrawal_amount: Erc20Value::from_be_bytes(be(1)),
                destination: a(0),
                native_ledger_burn_index: burn(0),
                erc20_contract_address: a(1),
                erc20_ledger_id: p(0),
                erc20_ledger_burn_index: burn(1),
                from: p(1),
                from_subaccount: sub(),
                created_at: r.id[2],
            }),
            V::variant(16, vec![V::Rec(vec![nv(0), nv(1), av(0), iv(0), av(1), pv(0), iv(1), pv(1), subv(), iv(2)])]),
        ),
        15 => (
            EventType::MintedErc20 { event_source: source(), mint_block_index: mint(0), erc20_token_symbol: r.text[0].clone(), erc20_contract_address: a(0) },
            V::variant(17, vec![sourcev(), iv(0), V::t(&r.text[0]), av(0)]),
        ),
        16 => (
            EventType::ReimbursedErc20Withdrawal { native_ledger_burn_index: burn(2), erc20_ledger_id: p(0), reimbursed: reimbursed() },
            V::variant(19, vec![iv(2), pv(0), reimbursedv()]),
        ),
        17 => (
            EventType::FailedErc20WithdrawalRequest(ReimbursementRequest { ledger_burn_index: burn(0), reimbursed_amount: Erc20TokenAmount::from_be_bytes(be(0)), to: p(0), to_subaccount: sub(), transaction_hash: o(1).then(|| h(0)) }),
            V::variant(20, vec![V::Rec(vec![iv(0), nv(0), pv(0), subv(), V::opt(o(1).then(|| hv(0)))])]),
        ),
        18 => (EventType::QuarantinedDeposit { event_source: source() }, V::variant(21, vec![sourcev()])),
        19 => {
            let (i, v) = if r.flag {
                (ReimbursementIndex::Native { ledger_burn_index: burn(0) }, V::variant(0, vec![iv(0)]))
            } else {
                (ReimbursementIndex::Erc20 { native_ledger_burn_index: burn(0), ledger_id: p(0), erc20_ledger_burn_index: burn(1) }, V::variant(1, vec![iv(0), pv(0), iv(1)]))
            };
            (EventType::QuarantinedReimbursement { index: i }, V::variant(22, vec![v]))
        }
        _ => (EventType::SkippedBlock { block_number: BlockNumber::from_be_bytes(be(0)) }, V::variant(23, vec![nv(0)])),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "format",
        "all 21 event kinds with arbitrary field values (boundary numbers, numbers above 256 bits where the format allows them, principals of all lengths, present and absent options, empty and long texts, data and access lists): bytes against a separately written encoder, decoding of those bytes and of the form with explicit nulls; non-trivial = every case",
        150_000,
        raw,
        |r| {
            let (payload, v) = build(r);
            let event = Event { timestamp: r.time, payload: payload.clone() };
            let v = V::Rec(vec![V::Int(r.time), v]);
            let want = v.encode(false);
            let got = event.to_bytes().to_vec();
            ensure_eq!(hex::encode(&got), hex::encode(&want), "bytes of {payload:?}");
            let back = Event::from_bytes(got.into());
            ensure!(back == event, "read back as {back:?}, expected {event:?}");
            let explicit = Event::from_bytes(v.encode(true).into());
            ensure!(explicit == event, "explicit nulls read back as {explicit:?}, expected {event:?}");
            Ok(Info::nontrivial(true).label(&format!("kind {:02}", r.kind)))
        },
    );
    ctx.check_with(
        "log",
        "1 to 8 events appended to a growing log in stable memory at increasing times; count and all entries since are read back; non-trivial = at least two events",
        4_000,
        5,
        300,
        || prop::collection::vec(raw(), 1..8),
        |rs| {
            crate::env();
            let before = total_event_count();
            let mut want = vec![];
            for r in rs {
                crate::env().time += r.time % 1000;
                let (payload, _) = build(r);
                want.push(Event { timestamp: crate::env().time, payload: payload.clone() });
                record_event(payload);
            }
            ensure_eq!(total_event_count(), before + rs.len() as u64, "number of events");
            let got: Vec<Event> = with_event_iter(|it| it.skip(before as usize).collect());
            ensure!(got == want, "events read back {got:?}, expected {want:?}");
            Ok(Info::nontrivial(rs.len() > 1))
        },
    );
}
