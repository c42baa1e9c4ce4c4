//! C14: RPC calls are retried with more cycles until they succeed or the cap.
use candid::{CandidType, Decode, Encode, Principal};
use evm_minter::logs::TRACE_HTTP;
use evm_rpc_client::{CallerService, EvmRpcClient, OverrideRpcConfig};
use evm_rpc_types::*;
use ic_cdk::api::call::RejectionCode;
use pbt::{ensure, ensure_eq, Ctx, Info, Verdict};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;
use crate::drive;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum One {
    Good(u64),
    TooFew(#[serde(with = "dec")] u128, #[serde(with = "dec")] u128),
    NoPermission,
    NotFound,
    Missing,
    BadConfig(String),
    Ic(u8, String),
    Http(u16, String, Option<String>),
    Json(i64, String),
    Invalid(String, bool),
}
/// 128-bit numbers as text in replay files.
mod dec {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u128, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
mod odec {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &Option<u128>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.map(|v| v.to_string()).unwrap_or_default())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<u128>, D::Error> {
        let s = String::deserialize(d)?;
        if s.is_empty() { Ok(None) } else { s.parse().map(Some).map_err(serde::de::Error::custom) }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Multi {
    Same(One),
    Differ(Vec<One>),
    Reject(u8, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    method: u8,
    answers: Vec<Multi>,
    #[serde(with = "odec")]
    min: Option<u128>,
    retries: Option<u32>,
    canister: Option<Vec<u8>>,
    providers: Option<(u64, Vec<String>)>,
    config: Option<(Option<u64>, Option<(u8, Option<u8>)>)>,
    n: u64,
}

fn cycles() -> BoxedStrategy<u128> {
    prop_oneof![
        3 => 0u128..10,
        6 => (0u32..128, any::<u128>()).prop_map(|(s, v)| v >> s),
        1 => (0u128..5).prop_map(|d| u128::MAX - d),
        1 => (0u128..5).prop_map(|d| u128::MAX / 2 - 2 + d),
    ]
    .boxed()
}
fn one() -> BoxedStrategy<One> {
    prop_oneof![
        3 => any::<u64>().prop_map(One::Good),
        6 => (cycles(), cycles()).prop_map(|(a, b)| One::TooFew(a, b)),
        1 => Just(One::NoPermission),
        1 => Just(One::NotFound),
        1 => Just(One::Missing),
        1 => "[a-z ]{0,8}".prop_map(One::BadConfig),
        1 => (0u8..8, "[a-z ]{0,8}").prop_map(|(c, m)| One::Ic(c, m)),
        1 => (any::<u16>(), "[a-z ]{0,8}", prop::option::of("[a-z]{0,4}")).prop_map(|(c, m, p)| One::Http(c, m, p)),
        1 => (any::<i64>(), "[a-z ]{0,8}").prop_map(|(c, m)| One::Json(c, m)),
        1 => ("[a-z ]{0,8}", any::<bool>()).prop_map(|(m, b)| One::Invalid(m, b)),
    ]
    .boxed()
}
/// An answer that demands cycles (mostly), or any other.
fn multi(few: u32) -> BoxedStrategy<Multi> {
    prop_oneof![
        few => (cycles(), cycles()).prop_map(|(a, b)| Multi::Same(One::TooFew(a, b))),
        few => (prop::collection::vec(one(), 0..4), prop::collection::vec(one(), 0..3), cycles(), cycles())
            .prop_map(|(mut a, b, e, r)| { a.push(One::TooFew(e, r)); a.extend(b); Multi::Differ(a) }),
        1 => one().prop_map(Multi::Same),
        1 => prop::collection::vec(one(), 0..4).prop_map(Multi::Differ),
        1 => (1u8..8, "[a-z ]{0,8}").prop_map(|(c, m)| Multi::Reject(c, m)),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    (
        0u8..6,
        prop::collection::vec(multi(8), 0..14),
        prop::option::of(cycles()),
        prop::option::of(prop_oneof![4 => 0u32..12, 1 => Just(u32::MAX)]),
        prop::option::of(prop::collection::vec(any::<u8>(), 1..29)),
        prop::option::of((any::<u64>(), prop::collection::vec("https://[a-z]{1,8}", 0..4))),
        prop::option::of((prop::option::of(any::<u64>()), prop::option::of((any::<u8>(), prop::option::of(any::<u8>()))))),
        any::<u64>(),
    )
        .prop_map(|(method, answers, min, retries, canister, providers, config, n)| Case { method, answers, min, retries, canister, providers, config, n })
        .boxed()
}

fn code(n: u8) -> RejectionCode {
    match n {
        0 => RejectionCode::NoError,
        1 => RejectionCode::SysFatal,
        2 => RejectionCode::SysTransient,
        3 => RejectionCode::DestinationInvalid,
        4 => RejectionCode::CanisterReject,
        5 => RejectionCode::CanisterError,
        _ => RejectionCode::Unknown,
    }
}
fn rpc<T>(o: &One, good: &dyn Fn(u64) -> T) -> RpcResult<T> {
    Err(match o {
        One::Good(n) => return Ok(good(*n)),
        One::TooFew(e, r) => RpcError::ProviderError(ProviderError::TooFewCycles { expected: *e, received: *r }),
        One::NoPermission => RpcError::ProviderError(ProviderError::NoPermission),
        One::NotFound => RpcError::ProviderError(ProviderError::ProviderNotFound),
        One::Missing => RpcError::ProviderError(ProviderError::MissingRequiredProvider),
        One::BadConfig(s) => RpcError::ProviderError(ProviderError::InvalidRpcConfig(s.clone())),
        One::Ic(c, m) => RpcError::HttpOutcallError(HttpOutcallError::IcError { code: code(*c), message: m.clone() }),
        One::Http(s, b, p) => RpcError::HttpOutcallError(HttpOutcallError::InvalidHttpJsonRpcResponse { status: *s, body: b.clone(), parsing_error: p.clone() }),
        One::Json(c, m) => RpcError::JsonRpcError(JsonRpcError { code: *c, message: m.clone() }),
        One::Invalid(m, true) => RpcError::ValidationError(ValidationError::Custom(m.clone())),
        One::Invalid(m, false) => RpcError::ValidationError(ValidationError::InvalidHex(m.clone())),
    })
}
fn whole<T>(m: &Multi, good: &dyn Fn(u64) -> T) -> MultiRpcResult<T> {
    match m {
        Multi::Same(o) => MultiRpcResult::Consistent(rpc(o, good)),
        Multi::Differ(v) => MultiRpcResult::Inconsistent(v.iter().enumerate().map(|(i, o)| (RpcService::Provider(i as u64), rpc(o, good))).collect()),
        Multi::Reject(c, msg) => MultiRpcResult::Consistent(Err(RpcError::HttpOutcallError(HttpOutcallError::IcError { code: code(*c), message: msg.clone() }))),
    }
}
/// The cycles demanded by an answer, if any provider asked for more.
fn demand(m: &Multi) -> Option<u128> {
    let of = |o: &One| if let One::TooFew(e, _) = o { Some(*e) } else { None };
    match m {
        Multi::Same(o) => of(o),
        Multi::Differ(v) => v.iter().filter_map(of).max(),
        Multi::Reject(..) => None,
    }
}

struct Seen {
    callee: Vec<u8>,
    method: String,
    arg: Vec<u8>,
    cycles: u128,
}

fn request<In, Out>(c: &Case, method: &str, args: In, config: &Option<RpcConfig>, providers: &RpcServices, good: &dyn Fn(u64) -> Out, call: impl FnOnce(EvmRpcClient<evm_minter::logs::PrintProxySink>, In) -> MultiRpcResult<Out>, client: EvmRpcClient<evm_minter::logs::PrintProxySink>, seen: &std::cell::RefCell<Vec<Seen>>) -> Verdict
where
    In: CandidType + DeserializeOwned + Clone + PartialEq + Debug,
    Out: CandidType + PartialEq + Debug,
{
    let fallback = Multi::Same(One::Good(7));
    let min = c.min.unwrap_or(3_000_000_000);
    let max_retries = c.retries.unwrap_or(10) as u64;
    let got = call(client, args.clone());
    let seen = seen.borrow();
    ensure!(!seen.is_empty(), "no call was made");
    let id = c.canister.clone().unwrap_or_else(|| Principal::from_text("sosge-5iaaa-aaaag-alcla-cai").unwrap().as_slice().to_vec());
    // How many attempts must there be?
    let answer = |i: usize| c.answers.get(i).unwrap_or(&fallback);
    let mut want = 1usize;
    while (want as u64) <= max_retries && demand(answer(want - 1)).is_some() {
        want += 1;
    }
    ensure_eq!(seen.len(), want, "number of attempts (at most {max_retries} retries)");
    for (i, s) in seen.iter().enumerate() {
        ensure_eq!(s.callee, id, "callee of attempt {i}");
        ensure_eq!(s.method, method.to_string(), "method of attempt {i}");
        ensure!(s.arg == seen[0].arg, "attempt {i} changed the request");
        if i == 0 {
            ensure_eq!(s.cycles, min, "cycles of the first attempt");
        } else {
            let prev = seen[i - 1].cycles;
            let need = demand(answer(i - 1)).unwrap();
            ensure!(s.cycles >= need, "attempt {i} attaches {} cycles although {need} were demanded", s.cycles);
            ensure!(s.cycles >= prev.saturating_mul(2), "attempt {i} attaches {} cycles after {prev}", s.cycles);
        }
    }
    let (p, cfg, a) = Decode!(&seen[0].arg, RpcServices, Option<RpcConfig>, In).map_err(|e| format!("request does not decode: {e}"))?;
    ensure_eq!(p, providers.clone(), "providers");
    ensure_eq!(cfg, config.clone(), "configuration");
    ensure_eq!(a, args, "arguments");
    ensure_eq!(got, whole(answer(want - 1), good), "result of the last attempt");
    let gave_up = demand(answer(want - 1)).is_some();
    Ok(Info::nontrivial(want > 1)
        .label_if(gave_up, "gave up at the cap")
        .label_if(want > 1 && !gave_up, "retried, then another answer")
        .label_if(matches!(answer(want - 1), Multi::Reject(..)), "call rejected")
        .label_if(seen.last().unwrap().cycles == u128::MAX, "cycles saturated"))
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "retries",
        "0 to 13 answers per request, most demanding cycles from one or several providers, then any mix of results, provider, HTTP and JSON errors and rejected calls, for all six methods, with default and configured minimum, cap, canister, providers and response size; non-trivial = at least one retry",
        20_000,
        case,
        |c| {
            let seen = std::cell::RefCell::new(Vec::<Seen>::new());
            let providers = match &c.providers {
                None => RpcServices::EthMainnet(None),
                Some((id, urls)) => RpcServices::Custom { chain_id: *id, services: urls.iter().map(|u| RpcApi { url: u.clone(), headers: None }).collect() },
            };
            let config = c.config.as_ref().map(|(s, t)| RpcConfig {
                response_size_estimate: *s,
                response_consensus: t.map(|(min, total)| ConsensusStrategy::Threshold { min, total }),
            });
            let mut b = EvmRpcClient::builder(CallerService {}, TRACE_HTTP);
            if c.providers.is_some() {
                b = b.with_providers(providers.clone());
            }
            if let Some(id) = &c.canister {
                b = b.with_evm_canister_id(Principal::from_slice(id));
            }
            if let Some(m) = c.min {
                b = b.with_min_attached_cycles(m);
            }
            if let Some(r) = c.retries {
                b = b.with_max_num_retries(r);
            }
            let mut o = OverrideRpcConfig::default();
            match c.method {
                0 => o.eth_get_block_by_number = config.clone(),
                1 => o.eth_get_logs = config.clone(),
                2 => o.eth_fee_history = config.clone(),
                3 => o.eth_get_transaction_receipt = config.clone(),
                4 => o.eth_get_transaction_count = config.clone(),
                _ => o.eth_send_raw_transaction = config.clone(),
            }
            if c.config.is_some() {
                b = b.with_override_rpc_config(o);
            }
            let client = b.build();
            crate::env();
            macro_rules! respond {
                ($good:expr) => {
                    |call: &ic0::sim::OutCall| {
                        let mut s = seen.borrow_mut();
                        let i = s.len();
                        if i > c.answers.len() + 2 {
                            panic!("more attempts than answers");
                        }
                        s.push(Seen { callee: call.callee.clone(), method: call.method.clone(), arg: call.arg.clone(), cycles: call.cycles });
                        match c.answers.get(i).cloned().unwrap_or(Multi::Same(One::Good(7))) {
                            Multi::Reject(code, msg) => Err((code as i32, msg)),
                            m => Ok(Encode!(&whole(&m, &$good)).unwrap()),
                        }
                    }
                };
            }
            let h20 = Hex20::from([c.n as u8; 20]);
            let tag = match c.n % 6 {
                0 => BlockTag::Latest,
                1 => BlockTag::Finalized,
                2 => BlockTag::Safe,
                3 => BlockTag::Earliest,
                4 => BlockTag::Pending,
                _ => BlockTag::Number(Nat256::from(c.n)),
            };
            match c.method {
                0 => {
                    let good = |n: u64| block(n);
                    request(c, "eth_getBlockByNumber", tag, &config, &providers, &good, |cl, a| drive(cl.eth_get_block_by_number(a), respond!(good)), client, &seen)
                }
                1 => {
                    let good = |n: u64| (0..n % 3).map(|i| log_entry(n.wrapping_add(i))).collect::<Vec<_>>();
                    let args = GetLogsArgs { from_block: Some(tag), to_block: None, addresses: vec![h20], topics: Some(vec![vec![Hex32::from([1; 32])], vec![]]) };
                    request(c, "eth_getLogs", args, &config, &providers, &good, |cl, a| drive(cl.eth_get_logs(a), respond!(good)), client, &seen)
                }
                2 => {
                    let good = |n: u64| (n % 3 > 0).then(|| FeeHistory { oldest_block: Nat256::from(n), base_fee_per_gas: vec![Nat256::from(1u64)], gas_used_ratio: vec![0.5], reward: vec![vec![Nat256::from(n)]] });
                    let args = FeeHistoryArgs { block_count: Nat256::from(c.n), newest_block: tag, reward_percentiles: Some(vec![20]) };
                    request(c, "eth_feeHistory", args, &config, &providers, &good, |cl, a| drive(cl.eth_fee_history(a), respond!(good)), client, &seen)
                }
                3 => {
                    let good = |n: u64| (n % 3 > 0).then(|| receipt(n));
                    request(c, "eth_getTransactionReceipt", format!("0x{:064x}", c.n), &config, &providers, &good, |cl, a| drive(cl.eth_get_transaction_receipt(a), respond!(good)), client, &seen)
                }
                4 => {
                    let good = |n: u64| Nat256::from(n);
                    request(c, "eth_getTransactionCount", GetTransactionCountArgs { address: h20, block: tag }, &config, &providers, &good, |cl, a| drive(cl.eth_get_transaction_count(a), respond!(good)), client, &seen)
                }
                _ => {
                    let good = |n: u64| match n % 5 {
                        0 => SendRawTransactionStatus::Ok(None),
                        1 => SendRawTransactionStatus::Ok(Some(Hex32::from([n as u8; 32]))),
                        2 => SendRawTransactionStatus::InsufficientFunds,
                        3 => SendRawTransactionStatus::NonceTooLow,
                        _ => SendRawTransactionStatus::NonceTooHigh,
                    };
                    request(c, "eth_sendRawTransaction", format!("0x02{:x}", c.n), &config, &providers, &good, |cl, a| drive(cl.eth_send_raw_transaction(a), respond!(good)), client, &seen)
                }
            }
        },
    );
}

fn block(n: u64) -> Block {
    crate::rpc::block(n.into(), Some(n.wrapping_mul(3).into()), n as u8)
}
fn log_entry(n: u64) -> LogEntry {
    LogEntry {
        address: Hex20::from([n as u8; 20]),
        topics: vec![Hex32::from([3; 32])],
        data: Hex::from(vec![n as u8; 5]),
        block_number: Some(Nat256::from(n)),
        transaction_hash: Some(Hex32::from([4; 32])),
        transaction_index: None,
        block_hash: None,
        log_index: Some(Nat256::from(1u64)),
        removed: n % 2 == 0,
    }
}
fn receipt(n: u64) -> TransactionReceipt {
    crate::rpc::receipt([n as u8; 32], n.into(), 5u64.into(), 21_000u64.into(), Some(1u64.into()), 0)
}
