//! C13: no RPC value is used unless enough providers agree on it.
use candid::{CandidType, Decode, Encode};
use evm_minter::eth_types::Address;
use evm_minter::numeric::{BlockNumber, GasAmount, LogIndex, TransactionCount, Wei, WeiPerGas};
use evm_minter::rpc_client::{is_response_too_large, MultiCallError, RpcClient};
use evm_minter::rpc_declrations as m;
use evm_rpc_types::*;
use ic_cdk::api::call::RejectionCode;
use pbt::{ensure, ensure_eq, Ctx, Info, Verdict};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::Debug;
use crate::{drive, rpc, Answer};

/// What one provider says: value number `k` of a small pool, or an error.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum One {
    Val(u8),
    Ic(u8, u8),
    Http(u16),
    Json(i64, String),
    Provider(u8),
    Invalid(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Multi {
    Same(One),
    Differ(Vec<One>),
    Reject(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    method: u8,
    client: u8,
    network: u8,
    answer: Multi,
    order: Vec<u8>,
    n: u64,
}

const MSGS: [&str; 4] = ["Http body exceeds size limit of 2048 bytes.", "no consensus", "", "size limi"];

fn one() -> BoxedStrategy<One> {
    prop_oneof![
        8 => (0u8..3).prop_map(One::Val),
        3 => (0u8..8).prop_map(One::Val),
        2 => (0u8..7, 0u8..4).prop_map(|(c, t)| One::Ic(c, t)),
        1 => (0u16..600).prop_map(One::Http),
        1 => (-3i64..3, "[a-z]{0,4}").prop_map(|(c, s)| One::Json(c, s)),
        1 => (0u8..4).prop_map(One::Provider),
        1 => "[a-z]{0,4}".prop_map(One::Invalid),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let answer = prop_oneof![
        2 => one().prop_map(Multi::Same),
        9 => prop::collection::vec(one(), 0..6).prop_map(Multi::Differ),
        4 => (prop::collection::vec((0u8..3).prop_map(One::Val), 1..5), prop::collection::vec(one(), 0..3)).prop_map(|(mut a, b)| { a.extend(b); Multi::Differ(a) }),
        3 => (0u8..8, 0usize..5, prop::collection::vec(one(), 0..2)).prop_map(|(v, n, b)| { let mut a = vec![One::Val(v); n]; a.extend(b); Multi::Differ(a) }),
        1 => (1u8..7, 0u8..4).prop_map(|(c, t)| Multi::Reject(c, t)),
    ];
    (0u8..7, 0u8..3, 0u8..10, answer, prop::collection::vec(any::<u8>(), 6), any::<u64>())
        .prop_map(|(method, client, network, answer, order, n)| Case { method, client, network, answer, order, n })
        .boxed()
}

fn code(n: u8) -> RejectionCode {
    [RejectionCode::NoError, RejectionCode::SysFatal, RejectionCode::SysTransient, RejectionCode::DestinationInvalid, RejectionCode::CanisterReject, RejectionCode::CanisterError]
        .get(n as usize)
        .copied()
        .unwrap_or(RejectionCode::Unknown)
}
fn rpc_result<T>(o: &One, value: &dyn Fn(u8) -> T) -> RpcResult<T> {
    Err(match o {
        One::Val(k) => return Ok(value(*k)),
        One::Ic(c, t) => RpcError::HttpOutcallError(HttpOutcallError::IcError { code: code(*c), message: MSGS[*t as usize].into() }),
        One::Http(s) => RpcError::HttpOutcallError(HttpOutcallError::InvalidHttpJsonRpcResponse { status: *s, body: "size limit".into(), parsing_error: None }),
        One::Json(c, m) => RpcError::JsonRpcError(JsonRpcError { code: *c, message: m.clone() }),
        One::Provider(n) => RpcError::ProviderError(match n {
            0 => ProviderError::NoPermission,
            1 => ProviderError::ProviderNotFound,
            2 => ProviderError::MissingRequiredProvider,
            _ => ProviderError::InvalidRpcConfig("x".into()),
        }),
        One::Invalid(s) => RpcError::ValidationError(ValidationError::Custom(s.clone())),
    })
}
fn service(i: usize) -> RpcService {
    RpcService::Custom(RpcApi { url: format!("https://provider{i}.example"), headers: None })
}

/// Decision on the numbers of the values: `Ok(Some(k))` must be accepted, `Ok(None)` may be either `k`-accepted
/// or refused, `Err` must be refused.
enum Want {
    Accept(u8),
    Either(u8),
    Refuse,
}
fn oks(v: &[One]) -> Vec<u8> {
    v.iter().filter_map(|o| if let One::Val(k) = o { Some(*k) } else { None }).collect()
}
fn equality(v: &[u8]) -> Want {
    if v.len() >= 2 && v.iter().all(|k| *k == v[0]) {
        Want::Accept(v[0])
    } else {
        Want::Refuse
    }
}
/// `key` and full identity of fee histories by value number.
fn majority(v: &[u8], key: impl Fn(u8) -> u8) -> Want {
    if v.len() < 2 {
        return Want::Refuse;
    }
    let mut count = std::collections::BTreeMap::<u8, (u8, usize)>::new();
    for k in v {
        let e = count.entry(key(*k)).or_insert((*k, 0));
        if e.0 != *k {
            return Want::Refuse;
        }
        e.1 += 1;
    }
    let mut c: Vec<_> = count.into_values().collect();
    c.sort_by_key(|x| std::cmp::Reverse(x.1));
    if c.len() > 1 && c[0].1 == c[1].1 {
        Want::Refuse
    } else if 2 * c[0].1 > v.len() {
        Want::Accept(c[0].0)
    } else {
        Want::Either(c[0].0)
    }
}

fn judge<E, T>(c: &Case, value: &dyn Fn(u8) -> E, mapped: &dyn Fn(u8) -> Option<T>, decide: &dyn Fn(&[One]) -> Want, ask: &dyn Fn(&mut dyn FnMut(&ic0::sim::OutCall) -> Answer) -> Result<T, MultiCallError<T>>, any_of: bool) -> Verdict
where
    E: CandidType + Clone,
    T: Clone + PartialEq + Debug,
{
    let reply = |list: &Multi| match list {
        Multi::Same(o) => Ok(Encode!(&MultiRpcResult::Consistent(rpc_result(o, value))).unwrap()),
        Multi::Differ(v) => Ok(Encode!(&MultiRpcResult::Inconsistent(v.iter().enumerate().map(|(i, o)| (service(i), rpc_result(o, value))).collect())).unwrap()),
        Multi::Reject(code, t) => Err((*code as i32, MSGS[*t as usize].to_string())),
    };
    let got = ask(&mut |_call| reply(&c.answer));
    let mut info = Info::trivial();
    match &c.answer {
        Multi::Same(One::Val(k)) => match mapped(*k) {
            Some(v) => ensure_eq!(got, Ok(v), "consistent answer"),
            None => ensure!(got.is_err(), "unusable consistent answer accepted: {got:?}"),
        },
        Multi::Same(o) => {
            let e = got.err().ok_or("a consistent error was accepted")?;
            match rpc_result::<()>(o, &|_| ()).unwrap_err() {
                RpcError::HttpOutcallError(h) => {
                    ensure_eq!(e, MultiCallError::ConsistentHttpOutcallError(h.clone()), "error");
                    ensure_eq!(e.has_http_outcall_error_matching(is_response_too_large), *o == One::Ic(1, 0), "too large");
                }
                RpcError::JsonRpcError(j) => ensure_eq!(e, MultiCallError::ConsistentJsonRpcError { code: j.code, message: j.message }, "error"),
                _ => ensure!(matches!(e, MultiCallError::ConsistentEvmRpcCanisterError(_)), "error {e:?}"),
            }
        }
        Multi::Reject(code_, t) => {
            let want: Result<T, _> = Err(MultiCallError::ConsistentHttpOutcallError(HttpOutcallError::IcError { code: code(*code_), message: MSGS[*t as usize].into() }));
            ensure_eq!(got, want, "rejected call");
        }
        Multi::Differ(v) => {
            let good = oks(v);
            info = Info::nontrivial(good.len() >= 2).label_if(v.len() > good.len(), "some providers failed");
            match decide(v) {
                Want::Accept(k) if any_of => {
                    let g = got.clone().map_err(|e| format!("answered by a provider but refused: {e:?}"))?;
                    ensure!(good.iter().any(|k| mapped(*k).as_ref() == Some(&g)), "result {g:?} was answered by nobody");
                    let _ = k;
                    info = info.label("accepted");
                }
                Want::Accept(k) => {
                    match mapped(k) {
                        Some(x) => ensure_eq!(got, Ok(x), "agreed answer"),
                        None => ensure!(got.is_err(), "unusable agreed answer accepted: {got:?}"),
                    }
                    info = info.label("accepted");
                }
                Want::Either(k) => {
                    if let Ok(g) = &got {
                        ensure_eq!(Some(g.clone()), mapped(k), "most frequent answer");
                    }
                    info = info.label("plurality only");
                }
                Want::Refuse => {
                    ensure!(got.is_err(), "accepted {:?}", got);
                    info = info.label("refused");
                    let large = v.iter().any(|o| *o == One::Ic(1, 0));
                    if let Err(e) = &got {
                        if good.len() < 2 {
                            ensure_eq!(e.has_http_outcall_error_matching(is_response_too_large), large, "too large reported");
                        }
                    }
                }
            }
            // Any other order leads to the same decision.
            if !any_of {
                let mut w: Vec<(u8, One)> = v.iter().enumerate().map(|(i, o)| (c.order[i % 6], o.clone())).collect();
                w.sort_by_key(|x| x.0);
                let w = Multi::Differ(w.into_iter().map(|x| x.1).collect());
                let again = ask(&mut |_call| reply(&w));
                ensure_eq!(again.as_ref().ok(), got.as_ref().ok(), "decision in another order of the providers");
            }
        }
    }
    Ok(info)
}

fn n256(n: u64) -> Nat256 {
    Nat256::from(n)
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "reductions",
        "answers of 0 to 7 providers drawn from pools of equal, nearly equal and different values mixed with all error kinds, consistent answers and rejected calls, for the seven requests the minter makes, over the three provider selections and ten networks, each also in a second order; non-trivial = at least two providers answered with a value",
        40_000,
        case,
        |c| {
            crate::env();
            let mut state = rpc::state(rpc::NETWORKS[c.network as usize].0, &crate::U(crate::big(0)));
            state.evm_canister_id = candid::Principal::from_slice(&[c.n as u8; 7]);
            let client = match c.client {
                0 => RpcClient::from_state_all_providers(&state),
                1 => RpcClient::from_state_one_provider_public_node(&state),
                _ => RpcClient::from_state_one_provider_ankr(&state),
            };
            let calls = RefCell::new(Vec::<ic0::sim::OutCall>::new());
            let n = c.n;
            macro_rules! ask {
                ($fut:expr) => {
                    &|respond: &mut dyn FnMut(&ic0::sim::OutCall) -> Answer| {
                        drive($fut, |call| {
                            calls.borrow_mut().push(call.clone());
                            respond(call)
                        })
                    }
                };
            }
            let eq = |v: &[One]| equality(&oks(v));
            let spec = match n % 4 {
                0 => m::BlockSpec::Tag(m::BlockTag::Latest),
                1 => m::BlockSpec::Tag(m::BlockTag::Safe),
                2 => m::BlockSpec::Tag(m::BlockTag::Finalized),
                _ => m::BlockSpec::Number(BlockNumber::from(n)),
            };
            let tag = match n % 4 {
                0 => BlockTag::Latest,
                1 => BlockTag::Safe,
                2 => BlockTag::Finalized,
                _ => BlockTag::Number(n256(n)),
            };
            let addr = [n as u8; 20];
            let (method, res) = match c.method {
                0 => {
                    // pool: numbers, base fees, and hashes differ one at a time
                    let value = |k: u8| rpc::block(n256(n.wrapping_add((k & 1) as u64)), Some(n256(((k >> 1) & 1) as u64)), k >> 2);
                    let mapped = |k: u8| Some(m::Block { number: BlockNumber::from(n.wrapping_add((k & 1) as u64)), base_fee_per_gas: Wei::from(((k >> 1) & 1) as u64) });
                    ("eth_getBlockByNumber", judge(c, &value, &mapped, &eq, ask!(client.get_block_by_number(spec.clone())), false))
                }
                1 => {
                    let entry = |k: u8, i: u8| LogEntry {
                        address: Hex20::from([i; 20]),
                        topics: vec![Hex32::from([k & 1; 32]); i as usize],
                        data: Hex::from(vec![k >> 2; 3]),
                        block_number: (i > 0).then(|| n256(n)),
                        transaction_hash: (i != 1).then(|| Hex32::from([5; 32])),
                        transaction_index: (i == 1).then(|| n256(n ^ 77)),
                        block_hash: (i != 2).then(|| Hex32::from([6; 32])),
                        log_index: Some(n256(i as u64 + 10)),
                        removed: k & 4 != 0,
                    };
                    let want = |k: u8, i: u8| m::LogEntry {
                        address: Address::new([i; 20]),
                        topics: vec![m::FixedSizeData([k & 1; 32]); i as usize],
                        data: m::Data(vec![k >> 2; 3]),
                        block_number: (i > 0).then(|| BlockNumber::from(n)),
                        transaction_hash: (i != 1).then(|| m::Hash([5; 32])),
                        transaction_index: (i == 1).then(|| m::Quantity::from(n ^ 77)),
                        block_hash: (i != 2).then(|| m::Hash([6; 32])),
                        log_index: Some(LogIndex::from(i as u64 + 10)),
                        removed: k & 4 != 0,
                    };
                    // pool: lists that differ in length (k & 2), a topic, data or the removed flag
                    let count = |k: u8| if k & 2 != 0 { 2u8 } else { 3 };
                    let value = |k: u8| (0..count(k)).map(|i| entry(k, i)).collect::<Vec<_>>();
                    let mapped = |k: u8| Some((0..count(k)).map(|i| want(k, i)).collect::<Vec<_>>());
                    let fut = || client.get_logs(m::GetLogsParam {
                        from_block: spec.clone(),
                        to_block: m::BlockSpec::Number(BlockNumber::from(n)),
                        address: vec![Address::new(addr), Address::new([9; 20])],
                        topics: vec![m::Topic::Single(m::FixedSizeData([3; 32])), m::Topic::Multiple(vec![m::FixedSizeData([4; 32]), m::FixedSizeData([5; 32])])],
                    });
                    ("eth_getLogs", judge(c, &value, &mapped, &eq, ask!(fut()), false))
                }
                2 => {
                    // pool: absent, failed, succeeded, impossible and missing status, other price or gas
                    let mk = |s: Option<u64>, price: u64, used: u64| Some(rpc::receipt([7; 32], n256(n), n256(price), n256(used), s.map(n256), 8));
                    let value = |k: u8| match k {
                        0 => mk(Some(1), n, 21_000),
                        1 => None,
                        2 => mk(Some(0), n, 21_000),
                        3 => mk(Some(2), n, 21_000),
                        4 => mk(None, n, 21_000),
                        5 => mk(Some(1), n.wrapping_add(1), 21_000),
                        6 => mk(Some(1), n, 20_999),
                        _ => mk(Some(257), n, 21_000),
                    };
                    let out = |ok: bool, price: u64, used: u64| Some(Some(m::TransactionReceipt {
                        block_hash: m::Hash([8; 32]),
                        block_number: BlockNumber::from(n),
                        effective_gas_price: WeiPerGas::from(price),
                        gas_used: GasAmount::from(used),
                        status: if ok { m::TransactionStatus::Success } else { m::TransactionStatus::Failure },
                        transaction_hash: m::Hash([7; 32]),
                    }));
                    let mapped = |k: u8| match k {
                        0 => out(true, n, 21_000),
                        1 => Some(None),
                        2 => out(false, n, 21_000),
                        5 => out(true, n.wrapping_add(1), 21_000),
                        6 => out(true, n, 20_999),
                        _ => None,
                    };
                    let h = m::Hash({ let mut h = [0xab; 32]; h[..8].copy_from_slice(&n.to_be_bytes()); h });
                    ("eth_getTransactionReceipt", judge(c, &value, &mapped, &eq, ask!(client.get_transaction_receipt(h)), false))
                }
                3 => {
                    // pool: oldest block k % 3, other reward or base fee for k >= 3, absent for 7
                    let value = |k: u8| (k != 7).then(|| FeeHistory {
                        oldest_block: n256(n.wrapping_add((k % 3) as u64)),
                        base_fee_per_gas: vec![n256(1 + (k / 3 == 1) as u64), n256(5)],
                        gas_used_ratio: vec![0.5],
                        reward: vec![vec![n256(9 + (k / 3 == 2) as u64)], vec![]],
                    });
                    let mapped = |k: u8| (k != 7).then(|| m::FeeHistory {
                        oldest_block: BlockNumber::from(n.wrapping_add((k % 3) as u64)),
                        base_fee_per_gas: vec![WeiPerGas::from(1 + (k / 3 == 1) as u64), WeiPerGas::from(5u64)],
                        reward: vec![vec![WeiPerGas::from(9 + (k / 3 == 2) as u64)], vec![]],
                    });
                    let decide = |v: &[One]| majority(&oks(v).into_iter().filter(|k| *k != 7).collect::<Vec<_>>(), |k| k % 3);
                    let fut = || client.fee_history(m::FeeHistoryParams { block_count: m::Quantity::from(n), highest_block: spec.clone(), reward_percentiles: vec![20, 30] });
                    ("eth_feeHistory", judge(c, &value, &mapped, &decide, ask!(fut()), false))
                }
                4 | 5 => {
                    let value = |k: u8| n256(n.wrapping_add(k as u64));
                    let mapped = |k: u8| Some(TransactionCount::from(n.wrapping_add(k as u64)));
                    let min = |v: &[One]| {
                        let v = oks(v);
                        if v.len() < 2 { Want::Refuse } else { Want::Accept(v.into_iter().min_by_key(|k| n.wrapping_add(*k as u64)).unwrap()) }
                    };
                    if c.method == 4 {
                        ("eth_getTransactionCount", judge(c, &value, &mapped, &eq, ask!(client.get_finalized_transaction_count(Address::new(addr))), false))
                    } else {
                        ("eth_getTransactionCount", judge(c, &value, &mapped, &min, ask!(client.get_latest_transaction_count(Address::new(addr))), false))
                    }
                }
                _ => {
                    let value = |k: u8| match k {
                        0 => SendRawTransactionStatus::Ok(Some(Hex32::from([1; 32]))),
                        1 => SendRawTransactionStatus::NonceTooLow,
                        2 => SendRawTransactionStatus::InsufficientFunds,
                        3 => SendRawTransactionStatus::NonceTooHigh,
                        _ => SendRawTransactionStatus::Ok(None),
                    };
                    let mapped = |k: u8| Some(match k {
                        1 => m::SendRawTransactionResult::NonceTooLow,
                        2 => m::SendRawTransactionResult::InsufficientFunds,
                        3 => m::SendRawTransactionResult::NonceTooHigh,
                        _ => m::SendRawTransactionResult::Ok,
                    });
                    let any_ok = |v: &[One]| match oks(v).first() {
                        Some(k) => Want::Accept(*k),
                        None => Want::Refuse,
                    };
                    ("eth_sendRawTransaction", judge(c, &value, &mapped, &any_ok, ask!(client.send_raw_transaction(format!("0x02{n:x}"))), true))
                }
            };
            let info = res.map_err(|e| format!("{method}: {e}"))?;
            // The request that was made.
            for call in calls.borrow().iter() {
                ensure_eq!(call.callee, vec![c.n as u8; 7], "callee");
                ensure_eq!(call.method, method.to_string(), "method");
                let bad = |e: candid::Error| format!("request does not decode: {e}");
                match c.method {
                    0 => ensure_eq!(Decode!(&call.arg, RpcServices, Option<RpcConfig>, BlockTag).map_err(bad)?.2, tag, "block"),
                    1 => {
                        let a = Decode!(&call.arg, RpcServices, Option<RpcConfig>, GetLogsArgs).map_err(bad)?.2;
                        let want = GetLogsArgs {
                            from_block: Some(tag.clone()),
                            to_block: Some(BlockTag::Number(n256(n))),
                            addresses: vec![Hex20::from(addr), Hex20::from([9; 20])],
                            topics: Some(vec![vec![Hex32::from([3; 32])], vec![Hex32::from([4; 32]), Hex32::from([5; 32])]]),
                        };
                        ensure_eq!(a, want, "log filter");
                    }
                    2 => {
                        let a = Decode!(&call.arg, RpcServices, Option<RpcConfig>, String).map_err(bad)?.2;
                        ensure_eq!(a, format!("0x{:016x}{}", n, "ab".repeat(24)), "transaction hash");
                    }
                    3 => {
                        let a = Decode!(&call.arg, RpcServices, Option<RpcConfig>, FeeHistoryArgs).map_err(bad)?.2;
                        ensure_eq!(a, FeeHistoryArgs { block_count: n256(n), newest_block: tag.clone(), reward_percentiles: Some(vec![20, 30]) }, "fee history request");
                    }
                    4 | 5 => {
                        let a = Decode!(&call.arg, RpcServices, Option<RpcConfig>, GetTransactionCountArgs).map_err(bad)?.2;
                        let block = if c.method == 4 { BlockTag::Finalized } else { BlockTag::Latest };
                        ensure_eq!(a, GetTransactionCountArgs { address: Hex20::from(addr), block }, "transaction count request");
                    }
                    _ => ensure_eq!(Decode!(&call.arg, RpcServices, Option<RpcConfig>, String).map_err(bad)?.2, format!("0x02{n:x}"), "raw transaction"),
                }
            }
            Ok(info.label(method))
        },
    );
    ctx.assume("the EVM RPC canister reports each provider at most once per answer");
}
