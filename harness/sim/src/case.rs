//! Generated histories: a configuration and a list of operations, all resolved while running.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub net: u8,
    /// Block tag: latest, safe, finalized.
    pub tag: u8,
    pub tf: u64,
    /// Minimum withdrawal in eighths of the initial cost of a native transfer.
    pub min: u16,
    pub dfee: u64,
    /// Withdrawal fee above the ledger's transfer fee; None: no fee.
    pub wfee: Option<u64>,
    pub nonce: u32,
    pub start: u32,
    pub min_prio: u64,
    pub tokens: u8,
    pub token_fee: u64,
    pub base: u64,
    pub prio: u64,
    pub lag_safe: u8,
    pub lag_final: u8,
    /// Logs one answer can hold; above 30 means no limit.
    pub max_logs: u8,
    pub first: u32,
    pub salt: u32,
    /// Blocks to scrape at the start.
    pub gap: u16,
    /// Which transactions fail while everything settles.
    pub fails: u8,
    /// Native units each user starts with.
    pub fund: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amt {
    /// Eighths of the current cost of a native transfer.
    Units(u16),
    Min(i8),
    Balance(i8),
    Fee(i8),
    FeeTf(i8),
    Gas(i8),
    Raw(u64),
    Over,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DAmt {
    Units(u16),
    Fee(i8),
    Raw(u64),
    Big(u8),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Up {
    pub min: Option<u16>,
    pub helper: Option<u8>,
    pub tag: Option<u8>,
    pub skip: Option<u8>,
    pub rpc: Option<u8>,
    pub tf: Option<u64>,
    pub min_prio: Option<u64>,
    pub dfee: Option<u64>,
    pub wfee: Option<u64>,
    /// A jump of the next nonce, when no transaction was made yet.
    pub nonce: Option<u8>,
    /// An invalid upgrade argument instead.
    pub bad: u8,
    pub none: bool,
    /// Scanning goes back so many blocks, instead of on.
    #[serde(default)]
    pub back: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Deposit { user: u8, sub: u8, token: u8, amount: DAmt, bad: u8, same_tx: bool, #[serde(default)] again: u8 },
    /// Above 40 (mostly empty) blocks come in hundreds.
    Mine { n: u8, txs: u8, fail: u8, pick: u8, gas: u8 },
    Fee { base: u64, prio: u64 },
    Approve { user: u8, token: u8, amount: Amt },
    Withdraw { user: u8, amount: Amt, to: u8 },
    Withdraw20 { user: u8, token: u8, amount: Amt, to: u8 },
    Advance(u16),
    Step { sel: u16, n: u8 },
    Drain,
    /// Time passes, everything due runs, blocks are mined, and what follows from them runs as well.
    Pass { secs: u16, n: u8, txs: u8, fail: u8 },
    /// Nothing is mined for some rounds of the background tasks while the base fee grows.
    Stuck { rounds: u8, surge: u8 },
    /// The base fee grows, signing fails, and what was sent before gets mined.
    Race { surge: u8, signs: u8, old: bool },
    /// The base fee grows by so many eighths.
    Surge(u8),
    Upgrade(Up),
    AddToken { variant: u8, token: u8 },
    Fault { target: u8, kind: u8, count: u8 },
    TrapNext(u8),
    Scrape(i8),
    Intrude(u8),
    Query(u16),
    /// A deposit whose mint ends with an unknown outcome, then scanning goes back over it.
    Rescan { user: u8, token: u8, units: u8, back: u8 },
    /// Other people's transfers bring two ledgers to nearly the same block number.
    Align { token: u8, k: u8 },
    /// A call with any argument the published interface admits.
    Raw { method: u8, seed: u64 },
    /// A burst of requests by many principals, some of whom then stay in flight.
    Flood { n: u8, erc20: bool },
    /// A second request while the first is in flight.
    Twice { user: u8, kinds: u8, to: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

/// Weights of the kinds of operation.
#[derive(Clone, Debug)]
pub struct Profile {
    pub deposit: u32,
    pub bad_deposit: u32,
    pub mine: u32,
    pub fee: u32,
    pub approve: u32,
    pub withdraw: u32,
    pub withdraw20: u32,
    pub advance: u32,
    pub step: u32,
    pub drain: u32,
    pub pass: u32,
    pub surge: u32,
    pub stuck: u32,
    pub race: u32,
    pub upgrade: u32,
    pub add_token: u32,
    pub fault: u32,
    pub trap: u32,
    pub scrape: u32,
    pub intrude: u32,
    pub query: u32,
    pub flood: u32,
    /// Size of a burst.
    pub crowd: (u8, u8),
    pub twice: u32,
    pub align: u32,
    pub raw: u32,
    /// Upgrades also move the scanning back.
    pub back: bool,
    pub min_ops: usize,
    pub max_ops: usize,
    pub fail_txs: bool,
    pub fees: bool,
    /// Which calls can be made to fail, and how.
    pub faults: &'static [u8],
    pub kinds: &'static [u8],
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            deposit: 6,
            bad_deposit: 1,
            mine: 6,
            fee: 2,
            approve: 1,
            withdraw: 5,
            withdraw20: 4,
            advance: 6,
            step: 10,
            drain: 4,
            pass: 5,
            surge: 2,
            stuck: 2,
            race: 1,
            upgrade: 1,
            add_token: 1,
            fault: 4,
            trap: 1,
            scrape: 1,
            intrude: 0,
            query: 1,
            flood: 0,
            crowd: (97, 104),
            twice: 0,
            align: 1,
            raw: 0,
            back: false,
            min_ops: 4,
            max_ops: 40,
            fail_txs: true,
            fees: true,
            faults: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14],
            kinds: &[0, 1, 2, 3, 4, 5, 6],
        }
    }
}

fn price() -> BoxedStrategy<u64> {
    prop_oneof![3 => 7u64..200, 3 => 200u64..100_000, 1 => 1_000_000_000u64..60_000_000_000].boxed()
}

pub fn cfg(p: &Profile) -> BoxedStrategy<Cfg> {
    let fees = p.fees;
    let fee = move || prop_oneof![1 => Just(0u64), 1 => 1u64..50, 2 => 50u64..100_000, if fees { 1 } else { 1 } => 100_000u64..2_000_000];
    (
        (0u8..10, 0u8..3, prop_oneof![1 => 1u64..20, 2 => 20u64..20_000], 1u16..40, fee(), prop::option::weighted(0.6, prop_oneof![1 => Just(0u64), 1 => 1u64..17, 1 => 17u64..40_000, 2 => 40_000u64..3_000_000])),
        (0u32..5000, 0u32..100_000, prop_oneof![8 => Just(0u16), 1 => 900u16..1100, 1 => 0u16..5000], prop_oneof![1 => Just(0u64), 2 => 1u64..2000], prop_oneof![1 => Just(0u8), 6 => 1u8..4], prop_oneof![1 => Just(0u64), 2 => 1u64..500], price()),
        (if p.fail_txs { prop_oneof![1 => Just(0u8), 1 => any::<u8>()].boxed() } else { Just(0u8).boxed() }, prop_oneof![1 => 0u64..10, 2 => 10u64..5000], 0u8..4, 0u8..6, prop_oneof![if p.deposit > 10 { 3 } else { 5 } => Just(31u8), 1 => 1u8..5, if p.deposit > 10 { 2 } else { 1 } => 1u8..3], prop_oneof![3 => 0u32..40, 1 => 0u32..1_000_000], any::<u32>(), prop_oneof![3 => 400u16..4000, 3 => 4000u16..60_000, 1 => 0u16..60]),
    )
        .prop_map(|((net, tag, tf, min, dfee, wfee), (nonce, start, gap, min_prio, tokens, token_fee, base), (fails, prio, lag_safe, lag, max_logs, first, salt, fund))| Cfg {
            net,
            tag,
            tf,
            min,
            dfee,
            wfee,
            nonce,
            start,
            min_prio,
            tokens,
            token_fee,
            base,
            prio,
            lag_safe,
            lag_final: lag_safe + lag,
            max_logs,
            first,
            salt,
            gap,
            fails,
            fund,
        })
        .boxed()
}

fn to() -> BoxedStrategy<u8> {
    prop_oneof![14 => 0u8..224, 1 => 224u8..=255].boxed()
}
pub fn amt() -> BoxedStrategy<Amt> {
    let d = || prop_oneof![3 => -2i8..3, 1 => any::<i8>()];
    prop_oneof![
        10 => (1u16..80).prop_map(Amt::Units),
        4 => (1u16..200).prop_map(Amt::Units),
        2 => d().prop_map(Amt::Min),
        2 => d().prop_map(Amt::Balance),
        1 => d().prop_map(Amt::Fee),
        1 => d().prop_map(Amt::FeeTf),
        2 => d().prop_map(Amt::Gas),
        1 => prop_oneof![0u64..50, any::<u64>()].prop_map(Amt::Raw),
    ]
    .boxed()
}
fn damt() -> BoxedStrategy<DAmt> {
    prop_oneof![
        8 => (1u16..400).prop_map(DAmt::Units),
        3 => prop_oneof![3 => -2i8..3, 1 => any::<i8>()].prop_map(DAmt::Fee),
        1 => (0u64..1000).prop_map(DAmt::Raw),
        1 => (60u8..120).prop_map(DAmt::Big),
    ]
    .boxed()
}
pub fn up() -> BoxedStrategy<Up> {
    let o = |s: BoxedStrategy<u64>| prop::option::weighted(0.25, s);
    (
        (prop::option::weighted(0.2, 1u16..40), prop::option::weighted(0.1, 0u8..3), prop::option::weighted(0.2, 0u8..3), prop::option::weighted(0.1, 0u8..4), prop::option::weighted(0.1, 0u8..2)),
        (o((1u64..20_000).boxed()), o((0u64..3000).boxed()), o(prop_oneof![Just(0u64), 1u64..200_000].boxed()), o(prop_oneof![Just(0u64), 1u64..17, 17u64..2_000_000].boxed())),
        (prop_oneof![12 => Just(0u8), 1 => 1u8..6], prop::bool::weighted(0.4), prop::option::weighted(0.2, any::<u8>())),
    )
        .prop_map(|((min, helper, tag, skip, rpc), (tf, min_prio, dfee, wfee), (bad, none, nonce))| Up { min, helper, tag, skip, rpc, tf, min_prio, dfee, wfee, nonce, bad, none, back: 0 })
        .boxed()
}

pub fn op(p: &Profile) -> BoxedStrategy<Op> {
    let fail = if p.fail_txs { prop_oneof![2 => Just(0u8), 2 => any::<u8>()].boxed() } else { Just(0u8).boxed() };
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    let dep = |bad: BoxedStrategy<u8>| (0u8..6, prop_oneof![4 => 0u8..3, 3 => 3u8..=255], 0u8..5, damt(), bad, prop::bool::weighted(0.3), prop_oneof![9 => Just(0u8), 1 => 1u8..3]).prop_map(|(user, sub, token, amount, bad, same_tx, again)| Op::Deposit { user, sub, token, amount, bad, same_tx, again });
    v.push((p.deposit, dep(Just(0u8).boxed()).boxed()));
    v.push((p.bad_deposit, dep((1u8..7).boxed()).boxed()));
    v.push((p.mine, (prop_oneof![8 => 1u8..4, 4 => 4u8..40, if p.deposit > 10 { 3 } else { 1 } => 40u8..100], prop_oneof![3 => Just(10u8), 1 => 0u8..3], fail, any::<u8>(), any::<u8>()).prop_map(|(n, txs, fail, pick, gas)| Op::Mine { n, txs, fail, pick, gas }).boxed()));
    v.push((p.fee, (price(), prop_oneof![1 => 0u64..10, 2 => 10u64..5000]).prop_map(|(base, prio)| Op::Fee { base, prio }).boxed()));
    v.push((p.approve, (0u8..5, 0u8..5, amt()).prop_map(|(user, token, amount)| Op::Approve { user, token, amount }).boxed()));
    v.push((p.withdraw, (0u8..5, amt(), to()).prop_map(|(user, amount, to)| Op::Withdraw { user, amount, to }).boxed()));
    v.push((p.withdraw20, (0u8..5, any::<u8>(), amt(), to()).prop_map(|(user, token, amount, to)| Op::Withdraw20 { user, token, amount, to }).boxed()));
    v.push((p.advance, prop_oneof![2 => 0u16..40, 3 => 60u16..62, 1 => 28u16..33, 2 => 600u16..602, 1 => 0u16..2000].prop_map(Op::Advance).boxed()));
    v.push((p.step, (any::<u16>(), prop_oneof![3 => 1u8..6, 2 => 6u8..40]).prop_map(|(sel, n)| Op::Step { sel, n }).boxed()));
    v.push((p.drain, Just(Op::Drain).boxed()));
    let fail2 = if p.fail_txs { prop_oneof![2 => Just(0u8), 2 => any::<u8>()].boxed() } else { Just(0u8).boxed() };
    v.push((p.pass, (prop_oneof![5 => Just(61u16), 2 => Just(31u16), 3 => Just(601u16), 1 => 0u16..2000], prop_oneof![2 => 1u8..4, 2 => 4u8..30], prop_oneof![3 => Just(10u8), 2 => 0u8..3], fail2).prop_map(|(secs, n, txs, fail)| Op::Pass { secs, n, txs, fail }).boxed()));
    v.push((p.surge, prop_oneof![2 => 8u8..40, 1 => any::<u8>()].prop_map(Op::Surge).boxed()));
    v.push((p.stuck, (1u8..4, prop_oneof![3 => 0u8..30, 1 => any::<u8>()]).prop_map(|(rounds, surge)| Op::Stuck { rounds, surge }).boxed()));
    v.push((p.race, (prop_oneof![3 => 8u8..40, 1 => any::<u8>()], 1u8..12, prop::bool::weighted(0.8)).prop_map(|(surge, signs, old)| Op::Race { surge, signs, old }).boxed()));
    let back = if p.back { prop_oneof![1 => Just(0u8), 2 => 1u8..10, 1 => any::<u8>()].boxed() } else { Just(0u8).boxed() };
    v.push((p.upgrade, (up(), back).prop_map(|(u, back)| Op::Upgrade(Up { back, ..u })).boxed()));
    v.push((p.add_token, (prop_oneof![6 => Just(0u8), 1 => 1u8..9], 0u8..4).prop_map(|(variant, token)| Op::AddToken { variant, token }).boxed()));
    v.push((p.fault, (prop::sample::select(p.faults), prop::sample::select(p.kinds), prop_oneof![3 => Just(1u8), 1 => 2u8..6]).prop_map(|(target, kind, count)| Op::Fault { target, kind, count }).boxed()));
    let kinds = if p.back { 8u8 } else { 5 };
    v.push((if p.back { 6 } else { 0 }, (0u8..6, 0u8..3, any::<u8>(), any::<u8>()).prop_map(|(user, token, units, back)| Op::Rescan { user, token, units, back }).boxed()));
    v.push((p.trap, (0..kinds).prop_map(|k| Op::TrapNext(1 << if k < 5 { k } else { 2 })).boxed()));
    v.push((p.scrape, prop_oneof![1 => -2i8..3, 1 => any::<i8>()].prop_map(Op::Scrape).boxed()));
    v.push((p.intrude, (0u8..24).prop_map(Op::Intrude).boxed()));
    v.push((p.query, any::<u16>().prop_map(Op::Query).boxed()));
    v.push((p.flood, (p.crowd.0..p.crowd.1, any::<bool>()).prop_map(|(n, erc20)| Op::Flood { n, erc20 }).boxed()));
    v.push((p.align, (0u8..3, 0u8..4).prop_map(|(token, k)| Op::Align { token, k }).boxed()));
    v.push((p.raw, (any::<u8>(), any::<u64>()).prop_map(|(method, seed)| Op::Raw { method, seed }).boxed()));
    v.push((p.twice, (0u8..5, 0u8..8, any::<u8>()).prop_map(|(user, kinds, to)| Op::Twice { user, kinds, to }).boxed()));
    proptest::strategy::Union::new_weighted(v.into_iter().filter(|(w, _)| *w > 0).collect()).boxed()
}

pub fn case(p: &Profile) -> BoxedStrategy<Case> {
    (cfg(p), prop::collection::vec(op(p), p.min_ops..p.max_ops)).prop_map(|(cfg, ops)| Case { cfg, ops }).boxed()
}
