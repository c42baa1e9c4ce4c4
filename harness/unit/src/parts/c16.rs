//! C16: a log is accepted as a deposit exactly when it is well formed.
use candid::Principal;
use evm_minter::deposit_logs::{EventSource, EventSourceError, LogParser, ReceivedDepositEvent, ReceivedDepositLogParser, ReceivedDepsitEventError};
use evm_minter::eth_types::Address;
use evm_minter::numeric::{BlockNumber, LogIndex};
use evm_minter::rpc_declrations::{Data, FixedSizeData, Hash, LogEntry, Quantity};
use num_bigint::BigUint;
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use crate::{u256, U};

const TOPIC: &str = "deaddf8708b62ae1bf8ec4693b523254aa961b2da6bc5be57f3188ee784d6275";

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    address: [u8; 20],
    topics: Vec<Vec<u8>>,
    data: Vec<u8>,
    block: Option<U>,
    tx: Option<Vec<u8>>,
    tx_index: Option<U>,
    block_hash: Option<Vec<u8>>,
    log_index: Option<U>,
    removed: bool,
}

fn word() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![3 => prop::collection::vec(any::<u8>(), 32), 1 => Just(vec![0; 32]), 1 => u256().prop_map(|u| u.be32().to_vec())].boxed()
}
fn address_word() -> BoxedStrategy<Vec<u8>> {
    let clean = prop::collection::vec(any::<u8>(), 20).prop_map(|a| [vec![0; 12], a].concat());
    prop_oneof![
        10 => clean.clone(),
        3 => Just(vec![0; 32]),
        1 => (0usize..12, 1u8.., clean).prop_map(|(i, b, mut w)| { w[i] = b; w }),
        1 => Just([vec![0; 12], vec![0xff; 20]].concat()),
        1 => (0usize..20, 1u8..).prop_map(|(i, b)| { let mut w = vec![0; 32]; w[12 + i] = b; w }),
    ]
    .boxed()
}
fn principal_word() -> BoxedStrategy<Vec<u8>> {
    let pad = |mut v: Vec<u8>| { v.resize(32, 0); v };
    prop_oneof![
        10 => (1usize..=29).prop_flat_map(|n| prop::collection::vec(any::<u8>(), n)).prop_map(move |p| pad([vec![p.len() as u8], p].concat())),
        2 => (1usize..=28).prop_flat_map(|n| (prop::collection::vec(any::<u8>(), n), (n + 1)..32, 1u8..)).prop_map(move |(p, i, b)| { let mut w = pad([vec![p.len() as u8], p].concat()); w[i] = b; w }),
        1 => Just(pad(vec![1, 4])),
        1 => prop::collection::vec(any::<u8>(), 0..6).prop_map(move |p| pad([vec![p.len() as u8 + 1, 4], p].concat())),
        1 => any::<u8>().prop_map(move |b| pad(vec![1, b])),
        1 => (28u8..=35).prop_map(move |n| { let mut w = vec![7; 32]; w[0] = n; w }),
        1 => Just(vec![0; 32]),
        1 => (1u8..).prop_map(move |b| pad(vec![0, b])),
        1 => prop::collection::vec(any::<u8>(), 32),
    ]
    .boxed()
}
/// A log that is well formed up to at most a few of its parts.
fn raw() -> BoxedStrategy<Raw> {
    let opt = |s: BoxedStrategy<U>| prop_oneof![30 => s.prop_map(Some), 1 => Just(None)].boxed();
    let hash = || prop_oneof![30 => prop::collection::vec(any::<u8>(), 32).prop_map(Some), 1 => Just(None)].boxed();
    let topics = prop_oneof![
        30 => (address_word(), u256(), principal_word()).prop_map(|(t, a, p)| vec![hex::decode(TOPIC).unwrap(), t, a.be32().to_vec(), p]),
        2 => (address_word(), u256(), principal_word(), 0usize..32, 1u8..).prop_map(|(t, a, p, i, x)| { let mut s = hex::decode(TOPIC).unwrap(); s[i] ^= x; vec![s, t, a.be32().to_vec(), p] }),
        1 => prop::collection::vec(word(), 0..7),
        2 => (address_word(), u256(), principal_word(), prop::collection::vec(word(), 0..3), 0usize..6).prop_map(|(t, a, p, extra, keep)| {
            let mut v = vec![hex::decode(TOPIC).unwrap(), t, a.be32().to_vec(), p];
            v.extend(extra);
            v.truncate(keep);
            v
        }),
    ];
    let data = prop_oneof![
        20 => (address_word(), word()).prop_map(|(a, s)| [a, s].concat()),
        1 => (address_word(), word(), 0usize..64).prop_map(|(a, s, n)| { let mut d = [a, s].concat(); d.truncate(n); d }),
        1 => (address_word(), word(), prop::collection::vec(any::<u8>(), 1..40)).prop_map(|(a, s, x)| [a, s, x].concat()),
    ];
    (any::<[u8; 20]>(), topics, data, opt(u256()), hash(), opt(u256()), hash(), opt(u256()), prop_oneof![20 => Just(false), 1 => Just(true)])
        .prop_map(|(address, topics, data, block, tx, tx_index, block_hash, log_index, removed)| Raw { address, topics, data, block, tx, tx_index, block_hash, log_index, removed })
        .boxed()
}

fn a32(v: &[u8]) -> [u8; 32] {
    v.try_into().unwrap()
}
fn entry(r: &Raw) -> LogEntry {
    LogEntry {
        address: Address::new(r.address),
        topics: r.topics.iter().map(|t| FixedSizeData(a32(t))).collect(),
        data: Data(r.data.clone()),
        block_number: r.block.as_ref().map(|b| BlockNumber::from_be_bytes(b.be32())),
        transaction_hash: r.tx.as_ref().map(|h| Hash(a32(h))),
        transaction_index: r.tx_index.as_ref().map(|b| Quantity::from_be_bytes(b.be32())),
        block_hash: r.block_hash.as_ref().map(|h| Hash(a32(h))),
        log_index: r.log_index.as_ref().map(|b| LogIndex::from_be_bytes(b.be32())),
        removed: r.removed,
    }
}

#[derive(Debug, PartialEq, Clone)]
struct Deposit {
    native: bool,
    token: [u8; 20],
    from: [u8; 20],
    amount: BigUint,
    principal: Vec<u8>,
    subaccount: Option<[u8; 32]>,
    block: BigUint,
    tx: [u8; 32],
    log_index: BigUint,
}
#[derive(Debug, PartialEq)]
enum Want {
    Deposit(Deposit),
    Pending,
    /// Only the principal is wrong.
    Principal,
    Invalid,
}
/// The meaning of a log, by the description of the helper contract's event.
fn reference(r: &Raw) -> Want {
    let (Some(block), Some(tx), Some(_), Some(_), Some(log_index)) = (&r.block, &r.tx, &r.tx_index, &r.block_hash, &r.log_index) else {
        return Want::Pending;
    };
    if r.removed || r.topics.len() != 4 || hex::encode(&r.topics[0]) != TOPIC || r.data.len() != 64 {
        return Want::Invalid;
    }
    if r.topics[1][..12] != [0; 12] || r.data[..12] != [0; 12] {
        return Want::Invalid;
    }
    let p = &r.topics[3];
    let n = p[0] as usize;
    if n == 0 || n > 29 || p[1 + n..].iter().any(|b| *b != 0) || p[1..1 + n] == [4] {
        return Want::Principal;
    }
    let token: [u8; 20] = r.topics[1][12..].try_into().unwrap();
    let sub = a32(&r.data[32..]);
    Want::Deposit(Deposit {
        native: token == [0; 20],
        token,
        from: r.data[12..32].try_into().unwrap(),
        amount: BigUint::from_bytes_be(&r.topics[2]),
        principal: p[1..1 + n].to_vec(),
        subaccount: (sub != [0; 32]).then_some(sub),
        block: block.0.clone(),
        tx: a32(tx),
        log_index: log_index.0.clone(),
    })
}
fn seen(e: &ReceivedDepositEvent) -> Result<Deposit, String> {
    let d = match e {
        ReceivedDepositEvent::Native(n) => Deposit {
            native: true,
            token: [0; 20],
            from: n.from_address.into_bytes(),
            amount: BigUint::from_bytes_be(&n.value.to_be_bytes()),
            principal: n.principal.as_slice().to_vec(),
            subaccount: n.subaccount.clone().map(|s| s.to_bytes()),
            block: BigUint::from_bytes_be(&n.block_number.to_be_bytes()),
            tx: n.transaction_hash.0,
            log_index: BigUint::from_bytes_be(&n.log_index.to_be_bytes()),
        },
        ReceivedDepositEvent::Erc20(n) => Deposit {
            native: false,
            token: n.erc20_contract_address.into_bytes(),
            from: n.from_address.into_bytes(),
            amount: BigUint::from_bytes_be(&n.value.to_be_bytes()),
            principal: n.principal.as_slice().to_vec(),
            subaccount: n.subaccount.clone().map(|s| s.to_bytes()),
            block: BigUint::from_bytes_be(&n.block_number.to_be_bytes()),
            tx: n.transaction_hash.0,
            log_index: BigUint::from_bytes_be(&n.log_index.to_be_bytes()),
        },
    };
    // The accessors say the same.
    ensure_eq!(e.from_address().into_bytes(), d.from, "from_address()");
    ensure_eq!(e.principal(), Principal::from_slice(&d.principal), "principal()");
    ensure_eq!(e.value().0, d.amount, "value()");
    ensure_eq!(e.subaccount(), d.subaccount, "subaccount()");
    ensure_eq!(e.transaction_hash().0, d.tx, "transaction_hash()");
    ensure_eq!(BigUint::from_bytes_be(&e.block_number().to_be_bytes()), d.block, "block_number()");
    ensure_eq!(BigUint::from_bytes_be(&e.log_index().to_be_bytes()), d.log_index, "log_index()");
    ensure_eq!(e.source(), EventSource { transaction_hash: e.transaction_hash(), log_index: e.log_index() }, "source()");
    Ok(d)
}
fn judge_error(r: &Raw, want: &Want, e: &ReceivedDepsitEventError) -> Result<(), String> {
    let source = || EventSource { transaction_hash: Hash(a32(r.tx.as_ref().unwrap())), log_index: LogIndex::from_be_bytes(r.log_index.as_ref().unwrap().be32()) };
    match want {
        Want::Deposit(d) => return Err(format!("well-formed deposit {d:?} refused: {e:?}")),
        Want::Pending => ensure_eq!(*e, ReceivedDepsitEventError::PendingLogEntry, "unconfirmed log"),
        Want::Principal => ensure_eq!(
            *e,
            ReceivedDepsitEventError::InvalidEventSource { source: source(), error: EventSourceError::InvalidPrincipal { invalid_principal: FixedSizeData(a32(&r.topics[3])) } },
            "log with a bad principal"
        ),
        Want::Invalid => match e {
            ReceivedDepsitEventError::InvalidEventSource { source: s, .. } => ensure_eq!(*s, source(), "source of the error"),
            e => return Err(format!("malformed log reported as {e:?}")),
        },
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "single logs",
        "deposit logs with extreme amounts, principals of all lengths, zero and non-zero subaccounts and addresses, most of them broken in at most a few parts (missing fields, removed, wrong signature, topic count, data length, dirty address padding, bad principal lengths and trailing bytes); non-trivial = well formed, or broken in a part other than missing fields",
        300_000,
        raw,
        |r| {
            let want = reference(r);
            let got = ReceivedDepositLogParser::parse_log(entry(r));
            match (&want, &got) {
                (Want::Deposit(d), Ok(e)) => ensure_eq!(seen(e)?, d.clone(), "deposit"),
                (_, Err(e)) => judge_error(r, &want, e)?,
                (w, Ok(e)) => return Err(format!("accepted a log that is {w:?}: {e:?}")),
            }
            Ok(Info::nontrivial(want != Want::Pending)
                .label_if(matches!(&want, Want::Deposit(d) if d.native), "native")
                .label_if(matches!(&want, Want::Deposit(d) if !d.native), "ERC-20")
                .label_if(want == Want::Principal, "bad principal")
                .label_if(want == Want::Invalid, "malformed"))
        },
    );
    ctx.check(
        "lists",
        "0 to 12 such logs parsed together; non-trivial = both accepted and refused logs in one list",
        30_000,
        || prop::collection::vec(raw(), 0..12),
        |rs| {
            let (ok, err) = ReceivedDepositLogParser::parse_all_logs(rs.iter().map(entry).collect());
            let wants: Vec<_> = rs.iter().map(|r| (r, reference(r))).collect();
            let good: Vec<Deposit> = wants.iter().filter_map(|(_, w)| if let Want::Deposit(d) = w { Some(d.clone()) } else { None }).collect();
            let got: Vec<Deposit> = ok.iter().map(seen).collect::<Result<_, _>>()?;
            ensure_eq!(got, good, "deposits of the list");
            let bad: Vec<_> = wants.iter().filter(|(_, w)| !matches!(w, Want::Deposit(_))).collect();
            ensure_eq!(err.len(), bad.len(), "number of errors");
            for ((r, w), e) in bad.iter().zip(&err) {
                judge_error(r, w, e)?;
            }
            Ok(Info::nontrivial(!good.is_empty() && !bad.is_empty()))
        },
    );
    ctx.check(
        "arbitrary logs",
        "logs with arbitrary topics and data; non-trivial = no field is missing",
        60_000,
        || (prop::collection::vec(word(), 0..7), prop::collection::vec(any::<u8>(), 0..140), any::<[u8; 20]>(), any::<bool>(), 0u8..40),
        |(topics, data, address, removed, missing)| {
            let some = |n: u8| *missing != n;
            let r = Raw {
                address: *address,
                topics: topics.clone(),
                data: data.clone(),
                block: some(0).then(|| U(BigUint::from(5u8))),
                tx: some(1).then(|| vec![1; 32]),
                tx_index: some(2).then(|| U(BigUint::from(5u8))),
                block_hash: some(3).then(|| vec![2; 32]),
                log_index: some(4).then(|| U(BigUint::from(9u8))),
                removed: *removed,
            };
            match ReceivedDepositLogParser::parse_log(entry(&r)) {
                Ok(e) => ensure!(matches!(reference(&r), Want::Deposit(d) if d == seen(&e)?), "accepted {e:?}"),
                Err(e) => judge_error(&r, &reference(&r), &e)?,
            }
            Ok(Info::nontrivial(*missing > 4))
        },
    );
}
