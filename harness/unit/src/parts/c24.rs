//! C24: ledger memos identify the operation and fit the ledger's limit.
use candid::Principal;
use evm_minter::deposit_logs::{LedgerSubaccount, ReceivedDepositEvent, ReceivedErc20Event, ReceivedNativeEvent};
use evm_minter::erc20::ERC20TokenSymbol;
use evm_minter::eth_types::Address;
use evm_minter::memo::{BurnMemo, MintMemo};
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::Hash;
use evm_minter::state::transactions::{ReimbursementRequest, Subaccount};
use icrc_ledger_types::icrc1::transfer::Memo;
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use crate::{u256, uint, U, V};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    kind: u8,
    addr: [u8; 20],
    other: [u8; 20],
    hash: [u8; 32],
    log_index: U,
    id: u64,
    amount: U,
    block: U,
    symbol: String,
    who: Vec<u8>,
    sub: Option<[u8; 32]>,
}

fn raw() -> BoxedStrategy<Raw> {
    let id = prop_oneof![2 => 0u64..30, 1 => any::<u64>(), 1 => (0u32..64, 0u64..3).prop_map(|(s, d)| (1u64 << s).wrapping_sub(d))];
    let addr = || prop_oneof![4 => any::<[u8; 20]>(), 1 => Just([0u8; 20]), 1 => Just([0xff; 20])];
    let hash = prop_oneof![4 => any::<[u8; 32]>(), 1 => Just([0; 32]), 1 => Just([0xff; 32])];
    (
        (0u8..8, addr(), addr(), hash, uint(64), id),
        (u256(), u256(), prop_oneof![4 => "[ -~]{0,20}", 1 => Just("x".repeat(20))], prop::collection::vec(any::<u8>(), 0..29), prop::option::of(any::<[u8; 32]>())),
    )
        .prop_map(|((kind, addr, other, hash, log_index, id), (amount, block, symbol, who, sub))| Raw { kind, addr, other, hash, log_index, id, amount, block, symbol, who, sub })
        .boxed()
}

/// The memo the minter makes, and the established encoding of what it stands for.
fn memo(r: &Raw) -> (Vec<u8>, V) {
    let a = Address::new(r.addr);
    let (av, hv) = (V::b(&r.addr), V::b(&r.hash));
    let li = LogIndex::from_be_bytes(r.log_index.be32());
    let p = Principal::from_slice(&r.who);
    let reimbursement = |tx: bool| ReimbursementRequest {
        ledger_burn_index: LedgerBurnIndex::new(r.id),
        reimbursed_amount: Erc20TokenAmount::from_be_bytes(r.amount.be32()),
        to: p,
        to_subaccount: r.sub.map(Subaccount),
        transaction_hash: tx.then_some(Hash(r.hash)),
    };
    let sub = r.sub.and_then(LedgerSubaccount::from_bytes);
    let convert = V::variant(0, vec![av.clone(), hv.clone(), V::n(&r.log_index)]);
    let (m, v): (Memo, V) = match r.kind {
        0 => (MintMemo::Convert { from_address: a, tx_hash: Hash(r.hash), log_index: li }.into(), convert),
        1 => (
            (&ReceivedDepositEvent::from(ReceivedNativeEvent {
                transaction_hash: Hash(r.hash),
                block_number: BlockNumber::from_be_bytes(r.block.be32()),
                log_index: li,
                from_address: a,
                value: Wei::from_be_bytes(r.amount.be32()),
                principal: p,
                subaccount: sub,
            }))
                .into(),
            convert,
        ),
        2 => (
            (&ReceivedDepositEvent::from(ReceivedErc20Event {
                transaction_hash: Hash(r.hash),
                block_number: BlockNumber::from_be_bytes(r.block.be32()),
                log_index: li,
                from_address: a,
                value: Erc20Value::from_be_bytes(r.amount.be32()),
                principal: p,
                erc20_contract_address: Address::new(r.other),
                subaccount: sub,
            }))
                .into(),
            convert,
        ),
        3 => (reimbursement(true).into(), V::variant(1, vec![V::Int(r.id), hv])),
        4 => (reimbursement(false).into(), V::variant(2, vec![V::Int(r.id)])),
        5 => (BurnMemo::Convert { to_address: a }.into(), V::variant(0, vec![av])),
        6 => (
            BurnMemo::Erc20GasFee {
                erc20_token_symbol: r.symbol.parse::<ERC20TokenSymbol>().expect("a symbol the minter accepts"),
                erc20_withdrawal_amount: Erc20Value::from_be_bytes(r.amount.be32()),
                to_address: a,
            }
            .into(),
            V::variant(1, vec![V::t(&r.symbol), V::n(&r.amount), av]),
        ),
        _ => (BurnMemo::Erc20Convert { erc20_withdrawal_id: r.id, to_address: a }.into(), V::variant(2, vec![V::Int(r.id), av])),
    };
    (m.0.to_vec(), v)
}

pub fn run(ctx: &mut Ctx) {
    ctx.assume("Log indices fit 64 bits, as on every EVM chain; token symbols are ones the registry accepts.");
    ctx.check(
        "format",
        "every case makes one memo and compares it byte by byte with the documented encoding of its contents",
        150_000,
        raw,
        |r| {
            let (got, v) = memo(r);
            ensure_eq!(hex::encode(&got), hex::encode(v.encode(false)), "memo of {r:?}");
            ensure!(got.len() <= 80, "memo of {} bytes: {r:?}", got.len());
            // Written by any version: nulls may be explicit. Reads back to the same operation.
            for bytes in [got.clone(), v.encode(true)] {
                let again = if r.kind < 5 {
                    let m: MintMemo = minicbor::decode(&bytes).map_err(|e| format!("unreadable memo: {e}"))?;
                    Memo::from(m)
                } else {
                    let m: BurnMemo = minicbor::decode(&bytes).map_err(|e| format!("unreadable memo: {e}"))?;
                    Memo::from(m)
                };
                ensure_eq!(hex::encode(again.0.as_slice()), hex::encode(&got), "decoded memo");
            }
            Ok(Info::nontrivial(true).label(&format!("kind{}", r.kind)).label_if(got.len() == 80, "at the limit").label_if(got.len() > 70, "long"))
        },
    );
    ctx.check(
        "distinct",
        "both memos of a pair have the same ledger direction (mint or burn) and different contents",
        60_000,
        || (raw(), raw(), any::<u8>()).prop_map(|(a, b, mask)| {
            // The second operation differs from the first in few fields.
            let mut c = a.clone();
            if mask & 1 != 0 { c.kind = b.kind }
            if mask & 2 != 0 { c.addr = b.addr }
            if mask & 4 != 0 { c.hash = b.hash }
            if mask & 8 != 0 { c.log_index = b.log_index.clone() }
            if mask & 16 != 0 { c.id = b.id }
            if mask & 32 != 0 { c.amount = b.amount.clone() }
            if mask & 64 != 0 { c.symbol = b.symbol.clone() }
            (a, c)
        }),
        |(a, b)| {
            let ((ma, va), (mb, vb)) = (memo(a), memo(b));
            if (a.kind < 5) != (b.kind < 5) {
                return Ok(Info::trivial());
            }
            ensure_eq!(ma == mb, va == vb, "two operations share a memo: {a:?} {b:?}");
            Ok(Info::nontrivial(va != vb).label_if(va == vb, "same operation"))
        },
    );
}
