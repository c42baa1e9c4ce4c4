//! C15: gas prices follow the fee history and stay within the agreed bounds.
use crate::{drive, env, max256, rpc, u256, uint, U};
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::FeeHistory;
use evm_minter::state::STATE;
use evm_minter::tx::*;
use num_bigint::BigUint;
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn wpg(u: &U) -> WeiPerGas {
    WeiPerGas::from_be_bytes(u.be32())
}
fn num<T>(v: evm_minter::checked_amount::CheckedAmountOf<T>) -> BigUint {
    BigUint::from_bytes_be(&v.to_be_bytes())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    base: Vec<U>,
    reward: Vec<Vec<U>>,
    min: U,
    network: usize,
}
fn price() -> BoxedStrategy<U> {
    prop_oneof![5 => uint(40), 2 => (0u64..8).prop_map(|n| U(n.into())), 1 => uint(96), 1 => u256()].boxed()
}
fn history() -> BoxedStrategy<History> {
    let rewards = prop_oneof![
        6 => prop::collection::vec(prop::collection::vec(price(), 1), 1..7),
        1 => prop::collection::vec(prop::collection::vec(price(), 0..3), 0..6),
        // many equal ones
        1 => (price(), price(), prop::collection::vec(any::<bool>(), 1..8)).prop_map(|(a, b, v)| v.into_iter().map(|x| vec![if x { a.clone() } else { b.clone() }]).collect()),
    ];
    (prop::collection::vec(price(), 0..7), rewards, price(), 0usize..10).prop_map(|(base, reward, min, network)| History { base, reward, min, network }).boxed()
}
/// (base fee of the next block, priority fee), or None where there is no usable estimate.
fn expected(h: &History) -> Option<(BigUint, BigUint)> {
    let base = h.base.last()?.0.clone();
    let mut all: Vec<BigUint> = h.reward.iter().flatten().map(|u| u.0.clone()).collect();
    all.sort();
    let median = all.get(all.len() / 2)?.clone();
    let prio = median.max(h.min.0.clone());
    (&base * 2u8 + &prio <= max256()).then_some((base, prio))
}
fn sat(x: BigUint) -> BigUint {
    x.min(max256())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fee {
    base: U,
    prio: U,
    gas: U,
    old_max: U,
    old_prio: U,
    amount: U,
    other: U,
}
fn fee() -> BoxedStrategy<Fee> {
    let gas = prop_oneof![3 => Just(U(21_000u32.into())), 3 => Just(U(65_000u32.into())), 1 => uint(64), 1 => u256()];
    (price(), price(), gas, price(), price(), prop_oneof![3 => uint(90), 1 => u256()], price(), 0u8..8)
        .prop_map(|(base, prio, gas, old_max, old_prio, amount, other, mode)| {
            let mut f = Fee { base, prio, gas, old_max, old_prio, amount, other };
            match mode {
                // the old price is exactly, or almost, what is needed now
                0 => f.old_max = U(sat(&f.base.0 + &f.prio.0)),
                1 => { f.old_max = U(sat(&f.base.0 + &f.prio.0)); f.old_prio = f.prio.clone() }
                2 => { f.old_max = U(sat(&f.base.0 + &f.prio.0 + 1u8)); f.old_prio = f.prio.clone() }
                3 => f.old_prio = f.prio.clone(),
                4 => { let s = &f.base.0 + &f.prio.0; f.old_max = U(if s > BigUint::from(0u8) { sat(s - 1u8) } else { s }); f.old_prio = f.prio.clone() }
                5 => { f.old_prio = U(if f.prio.0 > BigUint::from(0u8) { &f.prio.0 - 1u8 } else { f.prio.0.clone() }); }
                _ => {}
            }
            f
        })
        .boxed()
}
/// (max fee, priority fee) of the replacement; unchanged when still sufficient.
fn replacement(f: &Fee) -> (BigUint, BigUint) {
    let need = sat(&f.base.0 + &f.prio.0);
    if f.old_max.0 >= need && f.old_prio.0 >= f.prio.0 {
        return (f.old_max.0.clone(), f.old_prio.0.clone());
    }
    let ten = sat(&f.old_prio.0 + (&f.old_prio.0 + 9u8) / 10u8);
    let prio = ten.max(f.prio.0.clone());
    (sat(&f.base.0 + &prio).max(f.old_max.0.clone()), prio)
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "estimate",
        "the fee history holds a base fee and rewards whose estimate fits 256 bits",
        60_000,
        history,
        |h| {
            env();
            STATE.with(|s| *s.borrow_mut() = Some(rpc::state(rpc::NETWORKS[h.network].0, &h.min)));
            let fh = FeeHistory {
                oldest_block: BlockNumber::from(1u8),
                base_fee_per_gas: h.base.iter().map(wpg).collect(),
                reward: h.reward.iter().map(|r| r.iter().map(wpg).collect()).collect(),
            };
            let got = estimate_transaction_fee(&fh).ok();
            let want = expected(h);
            ensure_eq!(got.as_ref().map(|g| (num(g.base_fee_per_gas), num(g.max_priority_fee_per_gas))), want, "estimate for {h:?}");
            let Some(g) = got else { return Ok(Info::trivial().label("no estimate")) };
            let (base, prio) = want.unwrap();
            for gas in [21_000u32, 65_000] {
                let p = g.clone().to_price(GasAmount::from(gas));
                ensure_eq!(num(p.max_fee_per_gas), &base * 2u8 + &prio, "max fee per gas");
                ensure_eq!(num(p.max_priority_fee_per_gas), prio, "priority fee");
                ensure_eq!(num(p.gas_limit), BigUint::from(gas), "gas limit");
                ensure_eq!(num(p.max_transaction_fee()), sat((&base * 2u8 + &prio) * gas), "max transaction fee");
                let quote = evm_minter::endpoints::Eip1559TransactionPrice::from(p.clone());
                ensure_eq!(quote.max_transaction_fee.0, sat((&base * 2u8 + &prio) * gas), "quoted fee");
                ensure_eq!((quote.gas_limit.0, quote.max_fee_per_gas.0, quote.max_priority_fee_per_gas.0), (BigUint::from(gas), &base * 2u8 + &prio, prio.clone()), "quote");
            }
            ensure_eq!(num(g.min_max_fee_per_gas()), sat(&base + &prio), "minimum max fee");
            Ok(Info::nontrivial(true).label_if(prio == h.min.0, "minimum priority fee").label_if(h.reward.iter().flatten().count() % 2 == 0, "even number of rewards"))
        },
    );
    ctx.check(
        "prices",
        "the replacement price differs from the old one",
        80_000,
        fee,
        |f| {
            let est = GasFeeEstimate { base_fee_per_gas: wpg(&f.base), max_priority_fee_per_gas: wpg(&f.prio) };
            let full = &f.base.0 * 2u8 + &f.prio.0;
            ensure_eq!(est.checked_estimate_max_fee_per_gas().map(num), (full <= max256()).then(|| full.clone()), "checked estimate");
            ensure_eq!(num(est.estimate_max_fee_per_gas()), sat(full), "estimate");
            ensure_eq!(num(est.min_max_fee_per_gas()), sat(&f.base.0 + &f.prio.0), "minimum");
            let old = TransactionPrice { gas_limit: GasAmount::from_be_bytes(f.gas.be32()), max_fee_per_gas: wpg(&f.old_max), max_priority_fee_per_gas: wpg(&f.old_prio) };
            ensure_eq!(num(old.max_transaction_fee()), sat(&f.gas.0 * &f.old_max.0), "cost");
            let new = old.clone().resubmit_transaction_price(est.clone());
            ensure_eq!((num(new.max_fee_per_gas), num(new.max_priority_fee_per_gas), num(new.gas_limit)), { let (a, b) = replacement(f); (a, b, f.gas.0.clone()) }, "replacement price for {f:?}");
            Ok(Info::nontrivial(new != old))
        },
    );
    ctx.check(
        "replacement",
        "a replacement transaction was made",
        60_000,
        || (fee(), any::<bool>(), any::<[u8; 20]>(), prop::collection::vec(any::<u8>(), 0..80), 0u64..1000, 0usize..10, -2i8..=2, any::<bool>()),
        |(f, native, to, data, nonce, network, delta, snug)| {
            let tx = Eip1559TransactionRequest {
                chain_id: rpc::NETWORKS[*network].1,
                nonce: TransactionNonce::from(*nonce),
                max_priority_fee_per_gas: wpg(&f.old_prio),
                max_fee_per_gas: wpg(&f.old_max),
                gas_limit: GasAmount::from_be_bytes(f.gas.be32()),
                destination: evm_minter::eth_types::Address::new(*to),
                amount: Wei::from_be_bytes(f.other.be32()),
                data: data.clone(),
                access_list: AccessList::new(),
            };
            let (max, prio) = replacement(f);
            let cost = sat(&f.gas.0 * &max);
            // what the user agreed to pay: arbitrary, or right at the cost
            let allowed = if *snug { let c = num_bigint::BigInt::from(cost.clone()) + *delta as i64; U(c.max(0.into()).to_biguint().unwrap().min(max256())) } else { f.amount.clone() };
            let signed = SignedEip1559TransactionRequest::from((tx.clone(), Eip1559Signature::default()));
            let w = Wei::from_be_bytes(allowed.be32());
            let r = Resubmittable {
                transaction: signed,
                resubmission: if *native { ResubmissionStrategy::ReduceEthAmount { withdrawal_amount: w } } else { ResubmissionStrategy::GuaranteeEthAmount { allowed_max_transaction_fee: w } },
            };
            let got = r.resubmit(GasFeeEstimate { base_fee_per_gas: wpg(&f.base), max_priority_fee_per_gas: wpg(&f.prio) });
            if (max.clone(), prio.clone()) == (f.old_max.0.clone(), f.old_prio.0.clone()) {
                ensure!(matches!(got, Ok(None)), "a price that is still sufficient was changed: {got:?}");
                return Ok(Info::trivial().label("unchanged"));
            }
            if sat(&f.gas.0 * &f.old_max.0) > allowed.0 {
                // The version that was sent is within what the user agreed to.
                return Ok(Info::trivial().label("sent version too expensive"));
            }
            if cost > allowed.0 {
                ensure!(matches!(&got, Err(ResubmitTransactionError::InsufficientTransactionFee { allowed_max_transaction_fee, actual_max_transaction_fee }) if num(*allowed_max_transaction_fee) == allowed.0 && num(*actual_max_transaction_fee) == cost), "too expensive a replacement: {got:?}");
                return Ok(Info::trivial().label("too expensive"));
            }
            let amount = if *native { &allowed.0 - &cost } else { f.other.0.clone() };
            let want = Eip1559TransactionRequest {
                max_priority_fee_per_gas: wpg(&U(prio)),
                max_fee_per_gas: wpg(&U(max)),
                amount: Wei::from_be_bytes(U(amount).be32()),
                ..tx
            };
            ensure!(matches!(&got, Ok(Some(t)) if *t == want), "replacement {got:?} instead of {want:?}");
            Ok(Info::nontrivial(true).label_if(cost == allowed.0, "exactly affordable"))
        },
    );
    ctx.check(
        "cache",
        "at least one estimate came from the cache and one from a new fee history",
        8_000,
        || prop::collection::vec((history(), prop_oneof![2 => Just(0u64), 2 => 29_999_999_998u64..=30_000_000_002, 2 => 0u64..70_000_000_000, 1 => Just(29_999_999_999u64), 1 => Just(30_000_000_000u64)], 0u8..6), 1..6),
        |steps| {
            use evm_rpc_types::{FeeHistory as Fh, MultiRpcResult, Nat256};
            let e = env();
            let start = e.time;
            let min = &steps[0].0.min;
            let net = rpc::NETWORKS[steps[0].0.network];
            STATE.with(|s| *s.borrow_mut() = Some(rpc::state(net.0, min)));
            let mut model: Option<(u64, (BigUint, BigUint))> = None;
            let (mut hits, mut fetched) = (0, 0);
            for (h, dt, fault) in steps {
                env().time += dt;
                let now = env().time;
                let mut calls = 0;
                let mut wrong = None;
                let got = drive(lazy_refresh_gas_fee_estimate(), |call| {
                    calls += 1;
                    if call.method == "eth_feeHistory" {
                        let (_, _, a): (evm_rpc_types::RpcServices, Option<evm_rpc_types::RpcConfig>, evm_rpc_types::FeeHistoryArgs) = candid::decode_args(&call.arg).unwrap();
                        if !matches!(a.newest_block, evm_rpc_types::BlockTag::Latest) || a.block_count != Nat256::from(5u8) {
                            wrong = Some(format!("{a:?}"));
                        }
                    } else {
                        wrong = Some(call.method.clone());
                    }
                    if *fault == 0 {
                        return Err((2, "unreachable".into()));
                    }
                    let r: MultiRpcResult<Fh> = MultiRpcResult::Consistent(Ok(Fh {
                        oldest_block: Nat256::from(1u8),
                        base_fee_per_gas: h.base.iter().map(rpc::nat).collect(),
                        gas_used_ratio: vec![],
                        reward: h.reward.iter().map(|r| r.iter().map(rpc::nat).collect()).collect(),
                    }));
                    Ok(candid::encode_one(r).unwrap())
                });
                ensure!(wrong.is_none(), "unexpected request {wrong:?}");
                let got = got.map(|g| (num(g.base_fee_per_gas), num(g.max_priority_fee_per_gas)));
                match &model {
                    Some((t, v)) if now < t + 30_000_000_000 => {
                        ensure_eq!(got.as_ref(), Some(v), "a fresh estimate is kept");
                        ensure_eq!(calls, 0, "fee history requested although the estimate is fresh");
                        hits += 1;
                    }
                    _ => {
                        let mut h2 = h.clone();
                        h2.min = min.clone();
                        let want = if *fault == 0 { None } else { expected(&h2) };
                        ensure_eq!(got, want, "new estimate");
                        ensure!(calls >= 1, "an old estimate was not refreshed");
                        fetched += 1;
                        if let Some(v) = want {
                            model = Some((now, v));
                        }
                    }
                }
                let kept = evm_minter::state::read_state(|s| s.last_transaction_price_estimate.clone()).map(|(t, g)| (t, (num(g.base_fee_per_gas), num(g.max_priority_fee_per_gas))));
                ensure_eq!(kept, model, "the estimate quoted to users");
            }
            env().time = start;
            Ok(Info::nontrivial(hits > 0 && fetched > 0))
        },
    );
}
