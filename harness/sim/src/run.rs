//! Runs a generated history against the canister.
use crate::api::{self, EvmNetwork};
use crate::case::*;
use crate::chain::Chain;
use crate::ledger::Ledger;
use crate::oracle::*;
use crate::world::*;
use crate::{n, Addr, N};
use candid::{Decode, Encode, Nat, Principal};
use ic0::sim::{Env, Response};
use std::collections::BTreeMap;
use kit::eip55;
use kit::keys::{address_of, subnet_key};

pub const NETS: [EvmNetwork; 10] = [
    EvmNetwork::Ethereum,
    EvmNetwork::Sepolia,
    EvmNetwork::ArbitrumOne,
    EvmNetwork::BSC,
    EvmNetwork::BSCTestnet,
    EvmNetwork::Polygon,
    EvmNetwork::Optimism,
    EvmNetwork::Base,
    EvmNetwork::Avalanche,
    EvmNetwork::Fantom,
];
pub const START: u64 = 1_700_000_000 * NS;
pub const TOKENS: usize = 4;
const WHALE: u8 = 250;

pub fn user(i: u8) -> Principal {
    match i {
        0 => Principal::from_slice(&[0xa1; 29]),
        1 => Principal::from_slice(&[0xa2; 10]),
        2 => Principal::from_slice(&[0xa3; 29]),
        3 => Principal::from_slice(&[0xa4, 1, 2, 3]),
        4 => Principal::from_slice(&[0xa5; 20]),
        _ => Principal::from_slice(&[7]),
    }
}
pub fn crowd(i: u8) -> Principal {
    Principal::from_slice(&[0xb0, i, 1, 2, 3, 4, 5, 6, 7, 2])
}
pub fn sub(i: u8) -> Option<[u8; 32]> {
    let mut s = [0; 32];
    match i % 9 {
        0 => return None,
        1 => return Some([0xee; 32]),
        2 => s[31] = 9,
        3 => s[31] = 1,
        4 => s[0] = 1,
        5 => s[15] = 0x80,
        6 => s = [0xff; 32],
        7 => return Some(FEES),
        _ => s = keccak(i),
    }
    Some(s)
}
fn keccak(i: u8) -> [u8; 32] {
    let mut s = [0; 32];
    for (k, b) in s.iter_mut().enumerate() {
        *b = mix(k as u64 * 256 + i as u64) as u8;
    }
    s
}
pub fn helper(i: u8) -> Addr {
    [0x40 + i; 20]
}
pub fn contract(i: usize) -> Addr {
    // Neighbours differ in one byte in the middle only.
    let mut a = [0x60; 20];
    a[10] += i as u8;
    a[19] = 0xcd;
    a
}
pub fn symbol(i: usize) -> String {
    ["icUSDT", "icUSDC.eth", "X", "twenty-characters-ok"][i % 4].to_string()
}
fn payee(i: u8) -> Addr {
    let mut a = [0xd0 + i; 20];
    a[0] = 0x0b;
    a[7] = 0xab;
    match i {
        4 => a[..3].fill(0),
        5 => a[17..].fill(0),
        _ => (),
    }
    a
}
/// The recipient as text, and the address it stands for.
pub fn recipient(to: u8) -> (String, Option<Addr>) {
    let a = payee(to % 6);
    let low = hex::encode(a);
    match to {
        0..=223 => (
            match to / 6 % 3 {
                0 => eip55(&a),
                1 => format!("0x{low}"),
                _ => format!("0x{}", low.to_uppercase()),
            },
            Some(a),
        ),
        _ => (
            match to % 8 {
                0 => format!("0x{}", "0".repeat(40)),
                1 => format!("0x{}", &low[1..]),
                2 => low.clone(),
                3 => format!("0x{low}0"),
                4 => format!("0x{}g", &low[1..]),
                5 => String::new(),
                6 => format!("0x 0{}", &low[2..]),
                _ => format!("0x+{}", &low[1..]),
            },
            None,
        ),
    }
}

#[derive(Debug, Default, Clone)]
pub struct Report {
    pub violations: Vec<(Vec<&'static str>, String)>,
    pub labels: BTreeMap<&'static str, u64>,
    pub messages: u64,
    pub attempts: u32,
    pub trace: Vec<String>,
}
impl Report {
    pub fn of(&self, id: &str) -> Option<String> {
        let v: Vec<&String> = self.violations.iter().filter(|(t, _)| t.contains(&id)).map(|x| &x.1).collect();
        v.first().map(|t| t.to_string())
    }
    pub fn has(&self, l: &str) -> bool {
        self.labels.contains_key(l)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Init,
    Op(usize),
    Quiesce,
    FinalUpgrade,
    Settle,
}

struct Snapshot {
    info: api::MinterInfo,
    statuses: Vec<(u64, Option<api::RetrieveWithdrawalStatus>)>,
    details: Vec<Option<Vec<api::WithdrawalDetail>>>,
    events: usize,
}

/// An upgrade between the two threads.
pub struct Upgrading {
    arg: Option<api::UpgradeArg>,
    before: Option<Snapshot>,
    was: u64,
}

struct Run<'a> {
    w: Box<World>,
    case: &'a Case,
    steps: Vec<Step>,
    pc: usize,
    up: Option<Upgrading>,
    error: Option<String>,
    upgrades: bool,
    fails: u8,
}

pub fn new_world(net: usize, first: u64, salt: u64) -> Box<World> {
    let env = Env { self_id: SELF.to_vec(), balance: 1 << 100, time: START, ..Default::default() };
    let key = subnet_key(SEED, KEY, &[]);
    let chain = Chain {
        id: kit::rpc::CHAIN_IDS[net],
        head: 0,
        base: 100,
        prio: 10,
        lag_safe: 0,
        lag_final: 0,
        max_logs: usize::MAX,
        helper: helper(0),
        minter: address_of(key.verifying_key()),
        first_nonce: 0,
        nonce: 0,
        native: n(0),
        tokens: BTreeMap::new(),
        deposits: vec![],
        logs: vec![],
        pool: BTreeMap::new(),
        mined: vec![],
        salt,
    };
    let mut ledgers = BTreeMap::new();
    ledgers.insert(native_ledger(), Ledger::new(native_ledger(), n(1), me(), first));
    for i in 0..TOKENS {
        ledgers.insert(token_ledger(i), Ledger::new(token_ledger(i), n(1), me(), mix(salt + i as u64) % 1000));
    }
    Box::new(World {
        now: START + salt % 3,
        msg: 0,
        env: Box::into_raw(Box::new(env)),
        cur: 0,
        req: None,
        trap: Box::default(),
        skip: BTreeMap::new(),
        next_ctx: 0,
        ctxs: BTreeMap::new(),
        flights: vec![],
        net,
        chain,
        ledgers,
        set: Settings { tag: 2, helper: helper(0), min: n(1), tf: n(1), min_prio: n(0), dfee: n(0), wfee: n(0), rpc: default_rpc() },
        faults: vec![],
        trap_next: None,
        salt,
        services: BTreeMap::new(),
        facts: Facts::default(),
        violations: vec![],
        labels: BTreeMap::new(),
        trace: None,
        target: "",
        did: None,
        status_sent: BTreeMap::new(),
        sent_by: BTreeMap::new(),
        traps: 0,
        restless: false,
    })
}

/// Runs `f` on a thread of its own, with fresh thread-locals. False: the canister trapped.
pub fn on_thread(f: &mut dyn FnMut()) {
    struct Arg<'a>(&'a mut dyn FnMut());
    extern "C" fn start(p: *mut libc::c_void) -> *mut libc::c_void {
        // SAFETY: the parent waits for this thread.
        let a = unsafe { &mut *(p as *mut Arg) };
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (a.0)()));
        std::ptr::null_mut()
    }
    let mut a = Arg(f);
    // SAFETY: plain pthread use; `a` outlives the thread.
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 8 << 20);
        let mut t: libc::pthread_t = std::mem::zeroed();
        let r = libc::pthread_create(&mut t, &attr, start, &mut a as *mut Arg as *mut libc::c_void);
        assert_eq!(r, 0, "cannot start a thread");
        libc::pthread_attr_destroy(&mut attr);
        libc::pthread_join(t, std::ptr::null_mut());
    }
}

/// Runs a history; it may stop early once property `target` ("*": any) is violated.
pub fn run_case(case: &Case, target: &'static str) -> Report {
    run_traced(case, false, true, target)
}
/// The same history without its upgrades.
pub fn run_without_upgrades(case: &Case, target: &'static str) -> Report {
    let c = Case { cfg: case.cfg.clone(), ops: case.ops.iter().map(|o| if matches!(o, Op::Upgrade(_)) { Op::Drain } else { o.clone() }).collect() };
    run_traced(&c, false, false, target)
}
pub fn run_traced(case: &Case, trace: bool, upgrades: bool, target: &'static str) -> Report {
    let mut skip: BTreeMap<u64, String> = BTreeMap::new();
    for attempt in 0.. {
        let mut r = Run::new(case, skip.clone(), trace, upgrades);
        r.w.target = target;
        r.w.did = (target == "C31").then(|| std::rc::Rc::new(crate::did::Did::published()));
        let mut finished = false;
        while !finished {
            let mut ended = false;
            on_thread(&mut || {
                ic0::sim::install(r.w.env);
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.segment())) {
                    Ok(f) => finished = f,
                    Err(_) => {
                        r.error = Some("harness failure".into());
                        finished = true;
                    }
                }
                ended = true;
            });
            if !ended {
                break;
            }
        }
        if let Some(e) = &r.error {
            panic!("{e}");
        }
        // Up to the trap, the next attempt would go the same way.
        if !finished && !r.w.hit() {
            let t = r.w.trap.text.take().unwrap_or_else(|| "thread ended".into());
            if skip.insert(r.w.trap.idx, t).is_some() {
                panic!("a message traps twice");
            }
            if attempt < 60 {
                continue;
            }
            r.w.label("too many traps");
        }
        let w = &mut r.w;
        return Report { violations: std::mem::take(&mut w.violations), labels: std::mem::take(&mut w.labels), messages: w.msg, attempts: attempt + 1, trace: w.trace.take().unwrap_or_default() };
    }
    unreachable!()
}

impl<'a> Run<'a> {
    fn new(case: &'a Case, skip: BTreeMap<u64, String>, trace: bool, upgrades: bool) -> Self {
        let c = &case.cfg;
        let net = c.net as usize % 10;
        let mut w = new_world(net, c.first as u64, c.salt as u64);
        w.skip = skip;
        w.trace = trace.then(Vec::new);
        let ch = &mut w.chain;
        ch.head = c.start as u64 + 30 + c.lag_final as u64;
        ch.base = c.base.max(7);
        ch.prio = c.prio;
        ch.lag_safe = c.lag_safe as u64;
        ch.lag_final = c.lag_final as u64;
        ch.max_logs = if c.max_logs > 30 { usize::MAX } else { c.max_logs as usize };
        ch.first_nonce = c.nonce as u64;
        ch.nonce = c.nonce as u64;
        let unit = unit_price(&w, c.min_prio);
        let tf = n(c.tf as u128);
        w.set = Settings {
            tag: c.tag % 3,
            helper: helper(0),
            min: (&unit * c.min / 8u8).max(tf.clone()).max(n(1)),
            tf: tf.clone(),
            min_prio: n(c.min_prio as u128),
            dfee: n(c.dfee as u128),
            wfee: c.wfee.map(|x| service_fee(&tf, x)).unwrap_or_default(),
            rpc: default_rpc(),
        };
        w.ledgers.get_mut(&native_ledger()).unwrap().fee = tf;
        for i in 0..TOKENS {
            w.ledgers.get_mut(&token_ledger(i)).unwrap().fee = n(c.token_fee as u128);
        }
        w.facts.next_nonce = c.nonce as u64;
        let mut steps = vec![Step::Init];
        steps.extend((0..case.ops.len()).map(Step::Op));
        steps.push(Step::Quiesce);
        if upgrades {
            steps.extend([Step::FinalUpgrade, Step::Quiesce]);
        }
        steps.push(Step::Settle);
        Run { w, case, steps, pc: 0, up: None, error: None, upgrades, fails: c.fails }
    }

    /// Runs until the end (true) or until an upgrade needs a fresh thread (false).
    fn segment(&mut self) -> bool {
        if let Some(u) = self.up.take() {
            self.after_upgrade(u);
        }
        while self.pc < self.steps.len() {
            let step = self.steps[self.pc];
            self.pc += 1;
            self.w.log(|| format!("--- {step:?} {}", if let Step::Op(i) = step { format!("{:?}", self.case.ops[i]) } else { String::new() }));
            let changed = match step {
                Step::Init => {
                    self.init();
                    false
                }
                Step::Op(i) => self.op(&self.case.ops[i].clone()),
                Step::Quiesce => {
                    self.quiesce();
                    false
                }
                Step::FinalUpgrade => self.upgrade(None, false),
                Step::Settle => {
                    self.settle();
                    false
                }
            };
            if changed {
                return false;
            }
            if step != Step::Init {
                self.w.check_statuses();
            }
            if self.w.hit() {
                return true;
            }
        }
        true
    }

    fn init(&mut self) {
        let c = self.case.cfg.clone();
        let w = &mut self.w;
        if c.gap > 0 {
            // Deposits from before the minter was installed, spread over the blocks to scrape.
            let head = w.chain.head;
            w.chain.head = c.start as u64;
            let mut k = w.salt;
            while w.chain.head < head + c.gap as u64 {
                let v = unit_price(w, 0) + &w.set.dfee;
                w.chain.deposit([0; 20], payee(5), v, user(5), None, 0, false);
                w.chain.mine(0, 0, 0, 0);
                k = mix(k);
                w.chain.head += [0, 1, 200, 998, 999, 1000][(k % 6) as usize];
            }
            if w.salt & 8 == 0 {
                w.faults.push(Fault { target: T_LOGS, kind: (w.salt >> 4) as u8 % 7, left: 1 + (w.salt >> 8) as u8 % 2 });
            }
        }
        let a = init_arg(w, c.start as u64, c.nonce as u64);
        w.facts.init = Some(a.clone());
        let ctx = w.new_ctx(pid(9, 9), None);
        // SAFETY: the canister's entry point.
        let ok = w.exec(ctx, pid(9, 9), Encode!(&api::MinterArg::InitArg(a)).unwrap(), None, || unsafe { Method::canister_init.call() });
        if !ok {
            let t = format!("{:?}", w.skip.values().next());
            w.facts.init = None;
            return w.fail(&["C25"], format!("a valid configuration is refused: {t}"));
        }
        w.after_message();
        w.drain(true);
        for i in 0..(c.tokens as usize).min(TOKENS) {
            self.add_token(lsm(), i, 0);
        }
        let w = &mut self.w;
        let unit = unit_price(w, c.min_prio);
        for u in 0..5 {
            let extra = if c.fund < 60 { n(0) } else { &w.set.min * 8u8 + &w.set.wfee * 8u8 };
            let v = &unit * c.fund / 8u8 + &w.set.dfee + extra;
            w.chain.deposit([0; 20], payee(u), v, user(u), None, 0, false);
            for t in 0..(c.tokens as usize).min(TOKENS) {
                if (u as usize * 3 + t) % 5 != 4 {
                    w.chain.deposit(contract(t), payee(u), n(10_000_000) + n(u as u128), user(u), None, 0, false);
                }
            }
            let ids: Vec<Principal> = w.ledgers.keys().copied().collect();
            for l in ids {
                w.ledgers.get_mut(&l).unwrap().allowances.insert((acct(user(u)), acct(me())), N::from(1u8) << 200);
            }
        }
        if self.case.ops.iter().any(|o| matches!(o, Op::Flood { .. })) {
            w.chain.deposit([0; 20], payee(5), N::from(1u8) << 120, crowd(WHALE), None, 0, false);
            for t in 0..(c.tokens as usize).min(TOKENS) {
                w.chain.deposit(contract(t), payee(5), N::from(1u8) << 40, crowd(WHALE), None, 0, false);
            }
        }
        let limit = w.chain.max_logs;
        w.chain.max_logs = usize::MAX;
        for _ in 0..w.margin() + w.chain.lag_final + 2 {
            w.chain.mine(10, 0, 0, 0);
        }
        w.now += 601 * NS;
        w.drain(true);
        w.chain.max_logs = limit;
    }

    fn quiesce(&mut self) {
        let w = &mut self.w;
        w.sent_by.clear();
        w.faults.clear();
        w.trap_next = None;
        let open = w.facts.wds.values().filter(|x| x.finalized.is_none()).count();
        if w.salt & 16 == 0 && w.chain.base > 7 && open > 0 && open <= 25 {
            // At first prices stay as they are: what can be paid at these prices is paid.
            for _ in 0..8 {
                w.now += 61 * NS;
                w.drain(true);
                w.chain.mine(100, 0, 255, 128);
                if w.hit() {
                    return;
                }
            }
            w.label("settled at unchanged prices");
            w.paid_at_prices();
        }
        w.chain.base = 7;
        w.chain.prio = 1;
        // What a provider can answer is a property of the network, not a failure that stops.
        if w.salt & 4 == 0 {
            w.chain.max_logs = usize::MAX;
        }
        let mut idle = 0;
        let traps = w.traps;
        let fails = std::mem::take(&mut self.fails);
        for round in 0..60u32 {
            if w.hit() {
                return;
            }
            if w.traps > traps + 8 {
                // Attempts are bounded: what is not done by now counts as never done.
                w.label("keeps trapping");
                break;
            }
            let before = (w.facts.events.len(), w.last_scraped());
            w.drain(true);
            for _ in 0..w.margin() + w.chain.lag_final + 1 {
                w.chain.mine(100, if round < 4 { fails.rotate_left(round) } else { 0 }, 255, 128);
            }
            w.now += 601 * NS;
            w.drain(true);
            let moved = before.0 != w.facts.events.len();
            idle = if moved { 0 } else { idle + 1 };
            if idle >= 2 {
                break;
            }
        }
        w.label("quiesced");
    }

    fn settle(&mut self) {
        let w = &mut self.w;
        let prio = n(2).max(w.set.min_prio.clone());
        w.settled(&prio);
        if w.facts.announcements == 0 {
            w.fail(&["C30"], "was installed without announcing its ledger suite to the ledger suite manager".into());
        }
        let deep = w.deepest().unwrap_or(0);
        if w.last_scraped() < deep {
            let text = format!("blocks up to {deep} are deep enough, but only {} are scraped although failures have stopped", w.last_scraped());
            let idle = !w.sent_by.contains_key(&SCRAPE);
            w.fail(if idle { &["C02", "C11"] } else { &["C02"] }, text);
        }
        // The history reads the same, whatever the page size.
        let mut at = 0u64;
        let total = w.facts.events.len() as u64;
        let mut k = w.salt;
        while at < total {
            k = mix(k);
            let len = [1, 7, 50, 99, 100, 101, 1000, u64::MAX][(k % 8) as usize];
            self.window(at, len);
            at += len.min(100);
        }
        let w = &mut self.w;
        for u in 0..6 {
            w.check_search(api::WithdrawalSearchParameter::BySenderAccount(acct(user(u))));
            w.check_search(api::WithdrawalSearchParameter::ByRecipient(eip55(&payee(u))));
        }
    }

    /// Compares a page of the event history with what was read when it was recorded.
    fn window(&mut self, start: u64, len: u64) {
        let w = &mut self.w;
        let total = w.facts.events.len() as u64;
        let Some(r) = w.read_events(start, len) else {
            return w.fail(&["C26", "C09"], format!("reading {len} events from {start} fails"));
        };
        let a = start.min(total) as usize;
        let b = start.saturating_add(len.min(100)).min(total) as usize;
        let want = &w.facts.events[a..b.max(a)];
        if r.total_event_count != total || r.events != want {
            let text = format!("reading {len} events from {start} of {total} gives {} events and total {}{}", r.events.len(), r.total_event_count, if r.events.len() == want.len() { ", with other contents" } else { "" });
            w.fail(&["C26", "C09"], text);
        }
    }

    fn add_token(&mut self, caller: Principal, token: usize, variant: u8) {
        let w = &mut self.w;
        let chain = w.chain.id;
        let other = TOKENS - 1 - token;
        let mut a = api::AddErc20Token { chain_id: Nat::from(chain), address: eip55(&contract(token)), erc20_token_symbol: symbol(token), erc20_ledger_id: token_ledger(token) };
        match variant {
            1 => a.chain_id = Nat::from(kit::rpc::CHAIN_IDS[(w.net + 1) % 10]),
            2 => a.erc20_ledger_id = token_ledger(other),
            3 => a.address = eip55(&contract(other)),
            4 => a.erc20_token_symbol = symbol(other),
            5 => a.erc20_token_symbol = "twenty-one-characters".into(),
            6 => a.erc20_token_symbol = "icÜSD".into(),
            7 => a.address = a.address[..41].to_string(),
            8 => a.chain_id = Nat::from(u64::MAX) * Nat::from(16u8) + Nat::from(chain),
            9 => a.address = a.address.to_lowercase(),
            _ => {}
        }
        let well_formed = a.chain_id == Nat::from(chain) && a.erc20_token_symbol.is_ascii() && a.erc20_token_symbol.len() <= 20 && a.address.len() == 42;
        let unique = !w.facts.tokens.iter().any(|t| t.symbol == a.erc20_token_symbol || t.ledger == a.erc20_ledger_id || Some(t.contract) == addr(&a.address));
        let ok = well_formed && unique && caller == lsm();
        let before = w.facts.tokens.len();
        w.facts.adding = (caller == lsm()).then(|| (caller, a.clone()));
        let ctx = w.ingress(Method::add_erc20_token, caller, Encode!(&a).unwrap());
        w.facts.adding = None;
        let done = w.facts.tokens.len() - before;
        let trapped = w.ctxs[&ctx].entry_trap;
        let answered = matches!(w.ctxs[&ctx].response, Some(Response::Reply(_)));
        if ok != (done == 1) || ok == trapped || ok != answered {
            let why = if caller != lsm() { "C11" } else { "C27" };
            w.fail(&["C27", why], format!("adding {a:?} by {caller} should {}; tokens added: {done}, trapped: {trapped}", if ok { "succeed" } else { "be refused" }));
        }
        w.label(if ok { "token registered" } else { "token refused" });
    }

    fn request(&mut self, who: Principal, token: Option<Principal>, amount: N, to: u8) -> u64 {
        let (text, dest) = recipient(to);
        let w = &mut self.w;
        let busy = w.in_flight();
        let must_trap = if who == Principal::anonymous() {
            Some("the caller is anonymous")
        } else if w.ctxs.values().any(|c| c.req.is_some() && c.caller == who && !c.done() && !c.trapped) {
            Some("the same caller has a request in flight")
        } else if busy >= 100 {
            Some("100 requests are in flight")
        } else if w.facts.wds.values().filter(|x| x.recorded && x.versions.is_empty()).count() >= 100 {
            w.label("100 withdrawals waiting");
            Some("100 withdrawals wait for their transaction")
        } else {
            None
        };
        let info = w.token_of(token);
        w.req = Some(Req {
            amount: amount.clone(),
            dest,
            ledger: token,
            must_trap,
            may_trap: amount.bits() > 256,
            estimates: w.facts.estimates.len(),
            refreshing: w.flights.iter().any(|f| f.call.method == "eth_feeHistory"),
            set: w.set.clone(),
            token: info,
        });
        match token {
            None => w.ingress(Method::withdraw_native_token, who, Encode!(&api::WithdrawalArg { amount: Nat(amount), recipient: text }).unwrap()),
            Some(l) => w.ingress(Method::withdraw_erc20, who, Encode!(&api::WithdrawErc20Arg { amount: Nat(amount), erc20_ledger_id: l, recipient: text }).unwrap()),
        }
    }

    fn amount(&self, a: &Amt, u: u8, token: Option<usize>) -> N {
        let w = &self.w;
        let l = token.map(token_ledger).unwrap_or(native_ledger());
        let shift = |v: N, d: i8| if d >= 0 { v + d as u8 } else { let k = n(d.unsigned_abs() as u128); if v > k { v - k } else { n(0) } };
        let unit = if token.is_some() { n(1_000_000) } else { unit_price(w, 0).max(GAS * (n(w.chain.base as u128) * 2u8 + &w.set.min_prio)) };
        match a {
            Amt::Units(k) if token.is_none() && k % 4 != 0 => unit * *k / 8u8 + &w.set.min,
            Amt::Units(k) => unit * *k / 8u8,
            Amt::Min(d) => shift(if token.is_some() { w.ledgers[&l].fee.clone() } else { w.set.min.clone() }, *d),
            Amt::Balance(d) => shift(w.ledgers[&l].balance(&acct(user(u))), *d),
            Amt::Fee(d) => shift(w.set.wfee.clone(), *d),
            Amt::FeeTf(d) => shift(&w.set.wfee + &w.set.tf, *d),
            Amt::Gas(d) => shift(unit + &w.set.wfee, *d),
            Amt::Raw(v) => n(*v as u128),
            Amt::Over => N::from(1u8) << 256,
        }
    }

    /// True: an upgrade is under way.
    fn op(&mut self, op: &Op) -> bool {
        match op {
            Op::Deposit { user: u, sub: s, token, amount, bad, same_tx, again } => {
                let w = &mut self.w;
                let t = if *token == 0 { [0; 20] } else { contract(*token as usize - 1) };
                let unit = if *token == 0 { unit_price(w, 0) } else { n(1_000_000) };
                let v = match amount {
                    DAmt::Units(k) => unit * *k / 8u8,
                    DAmt::Fee(d) => {
                        let f = w.set.dfee.clone();
                        if *d >= 0 {
                            f + *d as u8
                        } else {
                            let k = n(d.unsigned_abs() as u128);
                            if f > k {
                                f - k
                            } else {
                                n(0)
                            }
                        }
                    }
                    DAmt::Raw(v) => n(*v as u128),
                    DAmt::Big(b) => N::from(1u8) << *b as u32,
                };
                w.chain.deposit(t, payee(*u), v.clone(), user(*u), sub(*s), *bad, *same_tx);
                // A contract may deposit the same again within its transaction.
                for _ in 0..*again {
                    w.chain.deposit(t, payee(*u), v.clone(), user(*u), sub(*s), *bad, true);
                    w.label("deposit repeated in its transaction");
                }
            }
            Op::Mine { n, txs, fail, pick, gas } => {
                if *n >= 40 {
                    self.w.label("long gap");
                    self.w.chain.head += (*n as u64 - 39) * 43;
                }
                for i in 0..(*n).min(40) {
                    self.w.chain.mine(*txs as usize, if i == 0 { *fail } else { fail.rotate_left(i as u32) }, *pick, *gas);
                }
            }
            Op::Fee { base, prio } => {
                self.w.chain.base = (*base).max(7);
                self.w.chain.prio = *prio;
            }
            Op::Approve { user: u, token, amount } => {
                let t = (*token > 0).then(|| *token as usize - 1);
                let v = self.amount(amount, *u, t);
                let l = t.map(token_ledger).unwrap_or(native_ledger());
                self.w.ledgers.get_mut(&l).unwrap().allowances.insert((acct(user(*u)), acct(me())), v);
            }
            Op::Withdraw { user: u, amount, to } => {
                let v = self.amount(amount, *u, None);
                if !self.busy(user(*u)) {
                    self.request(user(*u), None, v, *to);
                }
            }
            Op::Withdraw20 { user: u, token, amount, to } => {
                let t = self.pick_token(*token);
                let v = self.amount(amount, *u, Some(t));
                if !self.busy(user(*u)) {
                    self.request(user(*u), Some(token_ledger(t)), v, *to);
                }
            }
            Op::Advance(s) => self.w.now += *s as u64 * NS + self.jitter(),
            Op::Step { sel, n } => {
                let mut k = *sel as u64;
                for _ in 0..*n {
                    let c = self.w.choices();
                    if c.is_empty() {
                        break;
                    }
                    k = mix(k);
                    self.w.take(c[(k % c.len() as u64) as usize]);
                }
            }
            Op::Drain => self.w.drain(true),
            Op::Pass { secs, n, txs, fail } => {
                let jitter = self.jitter();
                let w = &mut self.w;
                w.now += *secs as u64 * NS + jitter;
                w.drain(true);
                for i in 0..*n {
                    w.chain.mine(*txs as usize, fail.rotate_left(i as u32), *fail, fail.wrapping_mul(37));
                }
                w.drain(true);
            }
            Op::Stuck { rounds, surge } => {
                let w = &mut self.w;
                for _ in 0..*rounds {
                    w.now += 61 * NS;
                    w.drain(true);
                    w.chain.mine(0, 0, 0, 0);
                    surge_by(&mut w.chain.base, *surge, self.case.cfg.base);
                }
            }
            Op::Race { surge, signs, old } => {
                // A replacement is decided on but not signed when the version before it gets mined.
                let w = &mut self.w;
                let base = w.chain.base;
                surge_by(&mut w.chain.base, *surge, self.case.cfg.base);
                w.faults.push(Fault { target: T_SIGN, kind: 0, left: *signs });
                w.now += 61 * NS;
                w.drain(true);
                if *old {
                    w.chain.base = base;
                }
                for _ in 0..4 {
                    w.chain.mine(10, 0, 0, 0);
                }
                for _ in 0..2 {
                    w.now += 61 * NS;
                    w.drain(true);
                    for _ in 0..8 {
                        w.chain.mine(10, 0, 0, 0);
                    }
                }
                w.label("replacement raced");
            }
            Op::Surge(k) => {
                surge_by(&mut self.w.chain.base, *k, self.case.cfg.base);
            }
            Op::Upgrade(u) => {
                if self.upgrades {
                    return self.upgrade_op(u);
                }
            }
            Op::AddToken { variant, token } => self.add_token(lsm(), *token as usize % TOKENS, *variant),
            Op::Fault { target, kind, count } => self.w.faults.push(Fault { target: *target, kind: *kind, left: *count }),
            Op::TrapNext(mask) => self.w.trap_next = Some(*mask),
            Op::Scrape(d) => self.scrape(*d),
            Op::Intrude(k) => self.intrude(*k),
            Op::Query(x) => self.query(*x),
            Op::Flood { n: k, erc20 } => {
                let unit = unit_price(&self.w, 0) + &self.w.set.min;
                let v = unit * 3u8 + &self.w.set.wfee * 3u8 + &self.w.set.tf * 3u8;
                for i in 0..*k {
                    self.gift(native_ledger(), crowd(i), &v);
                    if *erc20 && self.case.cfg.tokens > 0 && i % 8 != 7 {
                        self.gift(token_ledger(0), crowd(i), &n(2000));
                    }
                    let (t, a) = if *erc20 && self.case.cfg.tokens > 0 { (Some(token_ledger(0)), n(1000)) } else { (None, &v / 2u8) };
                    self.request(crowd(i), t, a, i % 6);
                }
                self.w.label("crowd");
                let k = self.w.in_flight();
                if k >= 100 {
                    self.w.label("100 requests in flight");
                }
            }
            Op::Rescan { user: u, token, units, back } => {
                let w = &mut self.w;
                let t = if *token == 0 { [0; 20] } else { contract(*token as usize - 1) };
                let v = unit_price(w, 0) * (*units as u32 + 1) + &w.set.dfee;
                w.chain.deposit(t, payee(*u), v, user(*u), None, 0, false);
                for _ in 0..w.margin() + w.chain.lag_final + 2 {
                    w.chain.mine(10, 0, 0, 0);
                }
                w.trap_next = Some(MINT);
                w.now += 601 * NS;
                w.drain(true);
                w.trap_next = None;
                return self.upgrade_op(&Up { back: *back, ..Up::default() });
            }
            Op::Align { token, k } => {
                let t = token_ledger(*token as usize);
                let (a, b) = (self.w.ledgers[&native_ledger()].next(), self.w.ledgers[&t].next());
                let (l, by) = if b < a + *k as u64 { (t, a + *k as u64 - b) } else { (native_ledger(), b - *k as u64 - a) };
                if by <= 3000 {
                    self.w.ledgers.get_mut(&l).unwrap().others(by);
                    self.w.label("ledgers aligned");
                }
            }
            Op::Raw { method, seed } => {
                let Some(d) = self.w.did.clone() else { return false };
                let (name, m, query) = crate::did::ENDPOINTS[*method as usize % crate::did::ENDPOINTS.len()];
                if !d.methods.contains_key(name) {
                    self.w.fail(&["C31"], format!("{name} is not in the published interface"));
                    return false;
                }
                let (arg, text) = d.random_args(name, *seed);
                self.w.log(|| format!("{name}{text}"));
                self.w.label("call of the published interface");
                if query {
                    self.w.query(m, arg);
                } else {
                    let who = if seed % 8 == 0 { Principal::anonymous() } else { crowd(200) };
                    self.w.ingress(m, who, arg);
                }
            }
            Op::Twice { user: u, kinds, to } => {
                for i in 0..2 {
                    let t = (kinds >> i & 1 == 1).then(|| token_ledger((kinds >> 2) as usize));
                    let v = if t.is_some() { n(5000) } else { unit_price(&self.w, 0) * 4u8 + &self.w.set.min + &self.w.set.wfee };
                    self.request(user(*u), t, v, *to % 200);
                }
                self.w.label("second request of a caller");
            }
        }
        false
    }

    /// The whale pays for the crowd's requests, out of what it once deposited.
    fn gift(&mut self, ledger: Principal, to: Principal, v: &N) {
        let l = self.w.ledgers.get_mut(&ledger).unwrap();
        let from = l.balances.entry(acct(crowd(WHALE))).or_default();
        if *from >= *v {
            *from -= v;
            *l.balances.entry(acct(to)).or_default() += v;
        }
        l.allowances.insert((acct(to), acct(me())), N::from(1u8) << 200);
    }

    /// Time does not pass in whole seconds, except half of the time.
    fn jitter(&self) -> u64 {
        let k = mix(self.w.salt ^ self.w.msg.wrapping_mul(31) ^ self.w.now);
        if k & 1 == 0 {
            0
        } else {
            (k >> 1) % NS
        }
    }

    /// Mostly one of the tokens the case starts with.
    fn pick_token(&self, x: u8) -> usize {
        let k = self.case.cfg.tokens as usize;
        (if x < 220 && k > 0 { x as usize % k } else { x as usize }) % TOKENS
    }

    /// Another request of this caller is in flight (a second one would only trap).
    fn busy(&self, who: Principal) -> bool {
        self.w.ctxs.values().any(|c| c.req.is_some() && c.caller == who && !c.done() && !c.trapped)
    }

    fn scrape(&mut self, d: i8) {
        let w = &mut self.w;
        let Some(seen) = w.facts.info.as_ref().and_then(|i| i.last_observed_block_number.clone()) else { return };
        let block = if d == i8::MIN { Nat(N::from(1u8) << 256) } else if d >= 0 { seen.clone() + Nat::from(d as u8) } else { Nat(if seen.0 > n(d.unsigned_abs() as u128) { seen.0.clone() - d.unsigned_abs() } else { n(0) }) };
        let (once, _) = ic_cdk_timers::sim::counts();
        let scrapes = w.facts.scrapes;
        let since = w.facts.last_scrape_start;
        let now = w.now;
        let ctx = w.ingress(Method::request_scraping_logs, user(0), Encode!(&block).unwrap());
        let c = w.ctxs[&ctx].clone();
        let (after, _) = ic_cdk_timers::sim::counts();
        let want = if d == i8::MIN {
            Err(api::RequestScrapingError::InvalidBlockNumber)
        } else if block <= seen {
            Err(api::RequestScrapingError::BlockAlreadyObserved)
        } else if since.map_or(false, |t| now < t + 60 * NS) {
            Err(api::RequestScrapingError::CalledTooManyTimes)
        } else {
            Ok(())
        };
        let have = match &c.response {
            Some(Response::Reply(b)) => Decode!(b, Result<(), api::RequestScrapingError>).ok(),
            _ => None,
        };
        w.label(match &want {
            Ok(()) => "scraping granted",
            Err(api::RequestScrapingError::CalledTooManyTimes) => "scraping too early",
            Err(_) => "scraping not needed",
        });
        if have != Some(want.clone()) {
            w.fail(&["C28"], format!("request to scrape block {block} with {seen} last observed, {:?} s after the last run: {have:?} instead of {want:?}", since.map(|t| (now - t) / NS)));
        }
        let started = after > once || w.facts.scrapes > scrapes;
        if started != want.is_ok() {
            w.fail(&["C28"], format!("request to scrape block {block}: {want:?}, but scraping {}", if started { "results" } else { "does not result" }));
        }
    }

    fn intrude(&mut self, k: u8) {
        let events = self.w.facts.events.len();
        let timers = ic_cdk_timers::sim::counts();
        let flights = self.w.flights.len();
        let who = user(k % 5);
        let anon = Principal::anonymous();
        // Other canisters have no more rights than anyone.
        let canisters = [native_ledger(), token_ledger(0), token_ledger(3), default_rpc(), self.w.set.rpc, pid(1, 1 + (self.w.salt % 9) as u8), Principal::management_canister(), crowd(200)];
        match k {
            6..=13 => self.add_token(canisters[k as usize - 6], 3, 0),
            14..=21 => {
                let c = self.w.ingress(Method::check_new_deposits, canisters[k as usize - 14], Encode!().unwrap());
                if !self.w.ctxs[&c].entry_trap {
                    self.w.fail(&["C11"], "check_new_deposits is open to other canisters".into());
                }
            }
            22 => {
                self.w.ingress(Method::retrieve_witdrawal_status, who, Encode!(&1u64).unwrap());
            }
            23 => {
                self.w.ingress(Method::icrc28_trusted_origins, who, Encode!().unwrap());
            }
            0 => self.add_token(who, 3, 0),
            1 => self.add_token(anon, 3, 0),
            2 => self.add_token(me(), 3, 0),
            3 => {
                let c = self.w.ingress(Method::check_new_deposits, who, Encode!().unwrap());
                if !self.w.ctxs[&c].entry_trap {
                    self.w.fail(&["C11"], "check_new_deposits is open to anyone".into());
                }
            }
            4 => {
                self.request(anon, None, n(1) << 60, 0);
            }
            _ => {
                self.request(anon, Some(token_ledger(0)), n(1000), 0);
            }
        }
        let w = &mut self.w;
        w.label("intrusion");
        if w.facts.events.len() != events || ic_cdk_timers::sim::counts() != timers || w.flights.len() != flights {
            w.fail(&["C11"], format!("a call of an unprivileged party (kind {k}) has an effect"));
        }
    }

    fn query(&mut self, x: u16) {
        use api::WithdrawalSearchParameter as P;
        let k = (x >> 3) as u64;
        match x % 8 {
            0 | 1 => {
                let total = self.w.facts.events.len() as u64;
                let start = match k % 5 {
                    0 => total,
                    1 => total + k % 200,
                    2 => u64::MAX - k % 3,
                    _ => mix(k) % (total + 1),
                };
                self.window(start, [0, 1, 2, 10, 99, 100, 101, 150, u64::MAX][(mix(k + 1) % 9) as usize]);
            }
            2 => {
                let ids: Vec<u64> = self.w.facts.wds.keys().copied().collect();
                let id = if ids.is_empty() || k % 3 == 0 { mix(k) % 3000 } else { ids[(k % ids.len() as u64) as usize] + if k % 4 == 0 { 1 } else { 0 } };
                self.w.check_search(P::ByWithdrawalId(id));
                let want = self.w.expected_status(id);
                let have = self.w.status(id);
                if have.as_ref() != Some(&want) {
                    self.w.fail(&["C12"], format!("status of {id} is {have:?} instead of {want:?}"));
                }
            }
            3 => self.w.check_search(P::BySenderAccount(icrc_ledger_types::icrc1::account::Account { owner: user((k % 6) as u8), subaccount: None })),
            4 => self.w.check_search(P::BySenderAccount(icrc_ledger_types::icrc1::account::Account { owner: user((k % 6) as u8), subaccount: sub(1 + (k / 6 % 8) as u8) })),
            5 => self.w.check_search(P::ByRecipient(if k % 2 == 0 { eip55(&payee((k / 2 % 6) as u8)) } else { hexs(&payee((k / 2 % 6) as u8)) })),
            6 => self.price((k % 6) as u8),
            _ if k % 2 == 0 => {
                self.w.ingress(Method::minter_address, user(0), Encode!().unwrap());
            }
            _ => {
                let w = &mut self.w;
                let b = w.query(Method::smart_contract_address, Encode!().unwrap()).and_then(|b| Decode!(&b, String).ok());
                if b != Some(eip55(&w.set.helper)) {
                    w.fail(&["C25"], format!("smart contract address {b:?}"));
                }
            }
        }
    }

    fn price(&mut self, k: u8) {
        let w = &mut self.w;
        let token = match k {
            0 => None,
            1 => Some(native_ledger()),
            i => Some(token_ledger(i as usize - 2)),
        };
        if let Some(t) = token {
            if t != native_ledger() && w.token_by_ledger(&t).is_none() {
                return;
            }
        }
        let Some(g) = w.facts.info.as_ref().and_then(|i| i.last_gas_fee_estimate.clone()) else { return };
        let arg = token.map(|erc20_ledger_id| api::Eip1559TransactionPriceArg { erc20_ledger_id });
        let gas = if token.is_none() || token == Some(native_ledger()) { GAS } else { GAS20 };
        let p = w.query(Method::price, Encode!(&arg).unwrap()).and_then(|b| Decode!(&b, api::Eip1559TransactionPrice).ok());
        let want = api::Eip1559TransactionPrice {
            gas_limit: Nat::from(gas),
            max_transaction_fee: g.max_fee_per_gas.clone() * Nat::from(gas),
            max_fee_per_gas: g.max_fee_per_gas,
            max_priority_fee_per_gas: g.max_priority_fee_per_gas,
            timestamp: Some(g.timestamp),
        };
        w.label("price quoted");
        if p.as_ref() != Some(&want) {
            w.fail(&["C15"], format!("price for {token:?} is {p:?} instead of {want:?}"));
        }
    }

    // ---- upgrades ----

    fn upgrade_op(&mut self, u: &Up) -> bool {
        let w = &mut self.w;
        w.drain(false);
        if u.none {
            return self.upgrade(None, false);
        }
        let mut a = api::UpgradeArg::default();
        if u.bad > 0 {
            match u.bad {
                1 => a.native_minimum_withdrawal_amount = Some(Nat::from(0u8)),
                2 => a.helper_contract_address = Some("0x0000000000000000000000000000000000000000".into()),
                3 => a.helper_contract_address = Some("no address".into()),
                4 => a.native_ledger_transfer_fee = Some(Nat(w.set.min.clone() + 1u8)),
                _ => a.deposit_native_fee = Some(Nat(N::from(1u8) << 256)),
            }
            return self.upgrade(Some(a), true);
        }
        let unit = unit_price(w, 0);
        let tf = u.tf.map(|x| n(x as u128)).unwrap_or(w.set.tf.clone());
        if let Some(m) = u.min {
            a.native_minimum_withdrawal_amount = Some(Nat((unit * m / 8u8).max(tf.clone()).max(n(1))));
        } else if u.tf.is_some() && w.set.min < tf {
            a.native_minimum_withdrawal_amount = Some(Nat(tf.clone()));
        }
        a.native_ledger_transfer_fee = u.tf.map(|_| Nat(tf.clone()));
        a.helper_contract_address = u.helper.map(|i| eip55(&helper(i)));
        a.block_height = u.tag.map(|t| [api::CandidBlockTag::Latest, api::CandidBlockTag::Safe, api::CandidBlockTag::Finalized][t as usize % 3].clone());
        a.last_scraped_block_number = u.skip.map(|k| Nat::from(w.last_scraped() + k as u64));
        if u.back > 0 {
            w.label("scanning moved back");
            // Often to where only deposits with an unknown outcome follow.
            let deps = || w.chain.deposits.iter().zip(&w.facts.deps);
            let known = deps().filter(|(_, s)| s.recorded).map(|(d, _)| d.block).max().unwrap_or(0);
            let scraped = w.last_scraped();
            let to = match deps().any(|(d, s)| s.quarantined && d.block > known && d.block <= scraped) {
                true if u.back & 3 != 0 => known.max(scraped.saturating_sub(900)),
                _ => scraped.saturating_sub(u.back as u64),
            };
            if deps().any(|(d, s)| s.quarantined && s.minted.is_some() && d.block > to && known <= to) {
                w.label("unknown outcomes rescanned");
            }
            a.last_scraped_block_number = Some(Nat::from(to));
        }
        a.evm_rpc_id = u.rpc.map(|i| if i == 0 { default_rpc() } else { pid(8, i) });
        if w.facts.wds.values().all(|x| x.versions.is_empty()) {
            a.next_transaction_nonce = u.nonce.map(|k| Nat::from(w.facts.next_nonce + k as u64));
        }
        a.min_max_priority_fee_per_gas = u.min_prio.map(Nat::from);
        a.deposit_native_fee = u.dfee.map(Nat::from);
        // The service fee must cover the ledger's fee, or be zero.
        a.withdrawal_native_fee = match u.wfee {
            Some(0) => Some(Nat::from(0u8)),
            Some(x) => Some(Nat(service_fee(&tf, x))),
            None if w.set.wfee > n(0) && w.set.wfee < tf => Some(Nat(tf.clone())),
            None => None,
        };
        self.upgrade(Some(a), false)
    }

    fn snapshot(&mut self) -> Option<Snapshot> {
        let w = &mut self.w;
        let info = w.read_info()?;
        let ids: Vec<u64> = w.facts.wds.keys().copied().collect();
        let statuses = ids.iter().map(|id| (*id, w.status(*id))).collect();
        // The order of the queue is not part of the state: requests that wait for lower fees go to its end.
        let sorted = |mut d: Vec<api::WithdrawalDetail>| {
            d.sort_by_key(|d| d.withdrawal_id);
            d
        };
        let details = (0..6).map(|u| w.search(&api::WithdrawalSearchParameter::BySenderAccount(acct(user(u)))).map(sorted)).collect();
        Some(Snapshot { info, statuses, details, events: w.facts.events.len() })
    }

    /// Begins an upgrade; false when it was refused.
    fn upgrade(&mut self, arg: Option<api::UpgradeArg>, invalid: bool) -> bool {
        self.w.drain(false);
        let before = self.snapshot();
        let w = &mut self.w;
        let refused = [w.msg, w.msg + 1].iter().find_map(|i| w.skip.get(i).cloned());
        if let Some(t) = refused {
            w.msg += 2;
            w.label("upgrade refused");
            if !invalid {
                w.fail(&["C09", "C25", "C19"], format!("an upgrade with {arg:?} is refused: {t}"));
            }
            return false;
        }
        let was = w.last_scraped();
        let ctx = w.new_ctx(pid(9, 9), None);
        // SAFETY: the canister's entry point.
        w.exec(ctx, pid(9, 9), vec![], None, || unsafe { Method::canister_pre_upgrade.call() });
        if invalid {
            self.up = Some(Upgrading { arg: arg.clone(), before: None, was });
        } else {
            self.up = Some(Upgrading { arg, before, was });
        }
        true
    }

    fn after_upgrade(&mut self, u: Upgrading) {
        let w = &mut self.w;
        let arg: Option<api::MinterArg> = u.arg.clone().map(api::MinterArg::UpgradeArg);
        let ctx = w.new_ctx(pid(9, 9), None);
        w.facts.upgrade = u.arg.clone();
        w.facts.upgraded = true;
        // SAFETY: the canister's entry point.
        w.exec(ctx, pid(9, 9), Encode!(&arg).unwrap(), None, || unsafe { Method::canister_post_upgrade.call() });
        w.label("upgrade");
        let Some(before) = u.before else {
            return w.fail(&["C25"], format!("an invalid upgrade argument is accepted: {:?}", u.arg));
        };
        let mut want = before.info.clone();
        if let Some(a) = &u.arg {
            apply(w, a, &mut want, u.was);
        }
        w.after_message();
        if w.facts.upgrade.take().is_some() {
            w.fail(&["C26"], "the upgrade is not recorded".into());
        }
        let Some(after) = self.snapshot() else {
            return self.w.fail(&["C09"], "nothing is reported after the upgrade".into());
        };
        let w = &mut self.w;
        let mut have = after.info.clone();
        for i in [&mut want, &mut have] {
            i.last_observed_block_number = None;
            i.last_gas_fee_estimate = None;
            i.minter_address = None;
            if let Some(t) = &mut i.supported_erc20_tokens {
                t.sort_by_key(|t| t.erc20_contract_address.clone());
            }
            if let Some(t) = &mut i.erc20_balances {
                t.sort_by_key(|t| t.erc20_contract_address.clone());
            }
        }
        if want != have {
            w.fail(&["C09"], format!("after the upgrade the minter reports {have:?} instead of {want:?}"));
        }
        if before.statuses != after.statuses {
            w.fail(&["C09", "C12"], format!("after the upgrade the statuses are {:?} instead of {:?}", after.statuses, before.statuses));
        }
        if before.details != after.details {
            w.fail(&["C09", "C12"], "after the upgrade searches give other results".into());
        }
        let _ = before.events;
        // All past events still read the same.
        let total = w.facts.events.len() as u64;
        for start in (0..total).step_by(100) {
            self.window(start, 100);
        }
    }
}

/// Applies upgrade settings to the model, and to the expected information.
fn apply(w: &mut World, a: &api::UpgradeArg, want: &mut api::MinterInfo, was: u64) {
    let opt = |v: &Nat| if v.0 == n(0) { None } else { Some(v.clone()) };
    if let Some(v) = &a.native_minimum_withdrawal_amount {
        w.set.min = v.0.clone();
        want.minimum_withdrawal_amount = Some(v.clone());
    }
    if let Some(v) = &a.helper_contract_address {
        w.set.helper = addr(v).unwrap();
        w.chain.helper = w.set.helper;
        want.helper_smart_contract_address = Some(v.clone());
    }
    if let Some(v) = &a.block_height {
        w.set.tag = match v {
            api::CandidBlockTag::Latest => 0,
            api::CandidBlockTag::Safe => 1,
            api::CandidBlockTag::Finalized => 2,
        };
        want.block_height = Some(v.clone());
    }
    if let Some(v) = &a.last_scraped_block_number {
        want.last_scraped_block_number = Some(v.clone());
        let to = to_u64(v);
        w.facts.skipped_to = Some(to);
        w.facts.skips.push((was, to));
    }
    if let Some(v) = &a.next_transaction_nonce {
        let v = to_u64(v);
        w.facts.next_nonce = v;
        w.chain.nonce = v;
        w.chain.first_nonce = v;
    }
    if let Some(v) = &a.evm_rpc_id {
        w.set.rpc = *v;
    }
    if let Some(v) = &a.native_ledger_transfer_fee {
        w.set.tf = v.0.clone();
        w.ledgers.get_mut(&native_ledger()).unwrap().fee = v.0.clone();
    }
    if let Some(v) = &a.min_max_priority_fee_per_gas {
        w.set.min_prio = v.0.clone();
    }
    if let Some(v) = &a.deposit_native_fee {
        w.set.dfee = v.0.clone();
        want.deposit_native_fee = opt(v);
    }
    if let Some(v) = &a.withdrawal_native_fee {
        w.set.wfee = v.0.clone();
        want.withdrawal_native_fee = opt(v);
    }
}

impl World {
    pub fn token_of(&self, l: Option<Principal>) -> Option<Token> {
        self.token_by_ledger(&l?).cloned()
    }
}

/// The ledger fee and more: up to 16, sixteenths of it.
fn service_fee(tf: &N, x: u64) -> N {
    if (1..=16).contains(&x) {
        tf + tf * x / 16u8
    } else {
        tf + x
    }
}

/// Prices that went too far up to be paid fall back.
fn surge_by(base: &mut u64, k: u8, first: u64) {
    *base = (*base + *base * k as u64 / 8).min(1 << 45);
    if *base > first.max(7) * 60 {
        *base = first.max(7);
    }
}

/// Cost of a native transfer at the chain's current prices.
pub fn unit_price(w: &World, min_prio: u64) -> N {
    GAS * (n(w.chain.base as u128) * 2u8 + n(w.chain.prio.max(min_prio) as u128))
}

pub fn init_arg(w: &World, start: u64, nonce: u64) -> api::InitArg {
    let s = &w.set;
    api::InitArg {
        evm_network: NETS[w.net],
        ecdsa_key_name: KEY.into(),
        helper_contract_address: Some(eip55(&s.helper)),
        native_ledger_id: native_ledger(),
        native_index_id: pid(1, 1 + (w.salt % 9) as u8),
        native_symbol: ["icNATIVE", "icBNB", "ic", "twinETH.x"][(w.salt / 9 % 4) as usize].into(),
        block_height: [api::CandidBlockTag::Latest, api::CandidBlockTag::Safe, api::CandidBlockTag::Finalized][s.tag as usize].clone(),
        native_minimum_withdrawal_amount: Nat(s.min.clone()),
        native_ledger_transfer_fee: Nat(s.tf.clone()),
        next_transaction_nonce: Nat::from(nonce),
        last_scraped_block_number: Nat::from(start),
        min_max_priority_fee_per_gas: Nat(s.min_prio.clone()),
        ledger_suite_manager_id: lsm(),
        deposit_native_fee: Nat(s.dfee.clone()),
        withdrawal_native_fee: Nat(s.wfee.clone()),
    }
}
