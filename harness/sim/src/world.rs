//! Message execution: contexts, calls in flight, timers, and the other canisters.
use crate::api;
use crate::chain::{decode_tx, Chain, Submitted};
use crate::ledger::Ledger;
use crate::oracle::Facts;
use crate::{n, Addr, N};
use candid::{CandidType, Decode, Encode, Nat, Principal};
use evm_rpc_types::*;
use ic0::sim::{Env, OutCall, Response};
use icrc_ledger_types::icrc1::transfer::{TransferArg, TransferError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};
use k256::ecdsa::signature::hazmat::PrehashSigner;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use kit::keys::{subnet_key, PublicKeyArg, PublicKeyReply, SignArg, SignReply};
use kit::rpc;

macro_rules! entry_points {
    ($($name:ident = $sym:literal),* $(,)?) => {
        extern "Rust" { $( #[link_name = $sym] fn $name(); )* }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[allow(non_camel_case_types)]
        pub enum Method { $($name),* }
        impl Method {
            pub unsafe fn call(self) { match self { $(Method::$name => $name()),* } }
        }
    };
}
entry_points! {
    canister_init = "canister_init",
    canister_pre_upgrade = "canister_pre_upgrade",
    canister_post_upgrade = "canister_post_upgrade",
    price = "canister_query.eip_1559_transaction_price",
    get_events = "canister_query.get_events",
    get_minter_info = "canister_query.get_minter_info",
    smart_contract_address = "canister_query.smart_contract_address",
    withdrawal_status = "canister_query.withdrawal_status",
    add_erc20_token = "canister_update.add_erc20_token",
    check_new_deposits = "canister_update.check_new_deposits",
    get_canister_status = "canister_update.get_canister_status",
    icrc28_trusted_origins = "canister_update.icrc28_trusted_origins",
    minter_address = "canister_update.minter_address",
    request_scraping_logs = "canister_update.request_scraping_logs",
    retrieve_witdrawal_status = "canister_update.retrieve_witdrawal_status",
    withdraw_erc20 = "canister_update.withdraw_erc20",
    withdraw_native_token = "canister_update.withdraw_native_token",
}

/// What a trap says when the argument could not be decoded.
const UNREAD: &str = "failed to decode call arguments";
pub const SELF: &[u8] = &[0, 0, 0, 0, 1, 0x60, 0, 0x11, 1, 1];
pub const FEES: [u8; 32] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x0f, 0xee];
pub fn me() -> Principal {
    Principal::from_slice(SELF)
}
pub fn pid(kind: u8, i: u8) -> Principal {
    Principal::from_slice(&[0, 0, 0, 0, 2, 0x30, kind, i, 1, 1])
}
pub fn native_ledger() -> Principal {
    pid(1, 0)
}
pub fn lsm() -> Principal {
    pid(2, 0)
}
pub fn token_ledger(i: usize) -> Principal {
    pid(3, i as u8)
}
pub fn default_rpc() -> Principal {
    Principal::from_text("sosge-5iaaa-aaaag-alcla-cai").unwrap()
}
pub const SEED: &[u8] = b"subnet";
pub const KEY: &str = "key_1";

thread_local! {
    static IN: Cell<*mut Trap> = const { Cell::new(std::ptr::null_mut()) };
}
/// Where the panic hook leaves word of a trap of the canister.
#[derive(Default)]
pub struct Trap {
    pub idx: u64,
    pub text: Option<String>,
}

/// A panic while canister code runs is a trap: it is noted and the thread ends on the spot, without running
/// destructors (as on the IC, where the state of the message is discarded).
pub fn install_hook() {
    let quiet = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let p = IN.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut());
        if p.is_null() {
            quiet(info);
            return;
        }
        // SAFETY: set by `exec` on this thread; the parent reads it only after this thread has ended.
        unsafe {
            (*p).text = Some(info.to_string());
            libc::syscall(libc::SYS_exit, 0);
        }
    }));
}

pub const SCRAPE: u8 = 1;
pub const RETRIEVE: u8 = 2;
pub const MINT: u8 = 4;
pub const REIMBURSE: u8 = 8;
pub const REQUEST: u8 = 16;

#[derive(Clone, Debug)]
pub struct LCall {
    pub ledger: Principal,
    pub from_call: bool,
    /// Index of the entry made, or why not.
    pub result: Result<u64, String>,
    pub faulted: bool,
    pub spender_fees: bool,
    pub from: Option<icrc_ledger_types::icrc1::account::Account>,
    pub to: icrc_ledger_types::icrc1::account::Account,
    pub amount: N,
}

/// A call context of the minter.
#[derive(Clone, Debug)]
pub struct Cx {
    pub id: u64,
    pub caller: Principal,
    pub method: Option<Method>,
    pub start: u64,
    pub start_msg: u64,
    pub out: usize,
    pub class: u8,
    pub response: Option<Response>,
    pub trapped: bool,
    pub entry_trap: bool,
    /// A trap was injected into one of its callbacks.
    pub injected: bool,
    pub faulted: bool,
    pub lcalls: Vec<LCall>,
    pub seen_done: bool,
    /// User mints of native deposits and fee mints made.
    pub native_mints: u32,
    pub fee_mints: u32,
    pub req: Option<crate::oracle::Req>,
}
impl Cx {
    pub fn done(&self) -> bool {
        self.out == 0
    }
}

#[derive(Clone, Debug)]
pub enum Resp {
    Reply(Vec<u8>),
    Reject(i32, String),
}
pub struct Flight {
    pub call: OutCall,
    pub callee: Principal,
    pub class: u8,
    pub resp: Option<Resp>,
    pub note: Note,
}
/// What a delivered answer told the minter.
#[derive(Clone, Debug, Default)]
pub struct Note {
    /// Maximum fee, priority fee, and whether the answer must be accepted.
    pub estimate: Option<(N, N, bool)>,
    pub latest: Option<u64>,
    pub too_large: Option<(u64, u64)>,
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub target: u8,
    pub kind: u8,
    pub left: u8,
}
pub const T_BLOCK: u8 = 0;
pub const T_LOGS: u8 = 1;
pub const T_FEES: u8 = 2;
pub const T_RECEIPT: u8 = 3;
pub const T_COUNT: u8 = 4;
pub const T_SEND: u8 = 5;
pub const T_MINT: u8 = 6;
pub const T_BURN: u8 = 7;
pub const T_MINT20: u8 = 8;
pub const T_BURN20: u8 = 9;
pub const T_SIGN: u8 = 10;
pub const T_KEY: u8 = 11;
/// Minting of the deposit fee, refund of the service fee, burn of the native token (but not the service fee).
pub const T_MINTFEE: u8 = 12;
pub const T_REFUND: u8 = 13;
pub const T_BURNONLY: u8 = 14;
pub const TARGETS: u8 = 15;

/// Current settings as the operator made them.
#[derive(Clone, Debug, PartialEq)]
pub struct Settings {
    pub tag: u8,
    pub helper: Addr,
    pub min: N,
    pub tf: N,
    pub min_prio: N,
    pub dfee: N,
    pub wfee: N,
    pub rpc: Principal,
}

pub struct World {
    pub now: u64,
    pub msg: u64,
    pub env: *mut Env,
    /// Context of the last message.
    pub cur: u64,
    /// The request the next context makes.
    pub req: Option<crate::oracle::Req>,
    pub trap: Box<Trap>,
    pub skip: BTreeMap<u64, String>,
    pub next_ctx: u64,
    pub ctxs: BTreeMap<u64, Cx>,
    pub flights: Vec<Flight>,
    pub net: usize,
    pub chain: Chain,
    pub ledgers: BTreeMap<Principal, Ledger>,
    pub set: Settings,
    pub faults: Vec<Fault>,
    pub trap_next: Option<u8>,
    pub salt: u64,
    pub services: BTreeMap<&'static str, RpcServices>,
    pub facts: Facts,
    pub violations: Vec<(Vec<&'static str>, String)>,
    pub labels: BTreeMap<&'static str, u64>,
    pub trace: Option<Vec<String>>,
    /// The property whose violation ends the history ("*": any; "": none).
    pub target: &'static str,
    /// The published interface, when calls and answers are held against it.
    pub did: Option<std::rc::Rc<crate::did::Did>>,
    /// Calls made by each background task since everything began to settle.
    pub sent_by: BTreeMap<u8, u64>,
    pub status_sent: BTreeMap<u64, Vec<u8>>,
    /// Messages that trapped so far.
    pub traps: u64,
    /// The canister sends messages without end.
    pub restless: bool,
}
impl Drop for World {
    fn drop(&mut self) {
        // SAFETY: made by Box::into_raw in `run`; no canister thread uses it any more.
        unsafe { drop(Box::from_raw(self.env)) }
    }
}

#[derive(CandidType)]
enum LsmError {
    WasmHashError,
    TokenAlreadyManaged,
    AlreadyManagedPrincipals,
}
#[derive(CandidType, candid::Deserialize, Debug)]
struct NativeSuite {
    symbol: String,
    ledger: Principal,
    ledger_wasm_hash: String,
    index: Principal,
    index_wasm_hash: String,
    archives: Vec<Principal>,
    chain_id: Nat,
}

pub fn to_n(v: &Nat256) -> N {
    N::from_bytes_be(&v.clone().into_be_bytes())
}
pub fn from_n(v: &N) -> Nat256 {
    Nat256::from_be_bytes(crate::chain::word_n(v))
}
fn h(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn mix(x: u64) -> u64 {
    h(x)
}

impl World {
    pub fn fail(&mut self, tags: &[&'static str], text: String) {
        if self.violations.len() < 40 {
            let text = format!("[message {}] {text}", self.msg);
            self.log(|| format!("!! {tags:?} {text}"));
            self.violations.push((tags.to_vec(), text));
        }
    }
    /// Whether the history has shown what it is run for.
    pub fn hit(&self) -> bool {
        match self.target {
            _ if self.restless => true,
            "" => false,
            "*" => !self.violations.is_empty(),
            t => self.violations.iter().any(|v| v.0.contains(&t)),
        }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
    }
    pub fn env(&mut self) -> &mut Env {
        // SAFETY: allocated in `run`, and only touched here outside of canister execution.
        unsafe { &mut *self.env }
    }

    /// Executes one message of the canister. False: it trapped.
    pub fn exec(&mut self, ctx: u64, caller: Principal, arg: Vec<u8>, reject: Option<(i32, String)>, f: impl FnOnce()) -> bool {
        self.cur = ctx;
        let idx = self.msg;
        self.msg += 1;
        if let Some(t) = self.skip.get(&idx).cloned() {
            self.log(|| format!("{idx}: trapped: {t}"));
            self.traps += 1;
            self.understood(ctx, &t);
            return false;
        }
        let now = self.now;
        let e = self.env();
        e.time = now;
        e.ctx = ctx;
        e.caller = caller.as_slice().to_vec();
        e.arg = arg;
        (e.reject_code, e.reject_msg) = reject.map(|(c, m)| (c, m.into_bytes())).unwrap_or_default();
        e.reply_buf.clear();
        e.response = None;
        e.building = None;
        e.calls.clear();
        e.balance = 1 << 100;
        self.trap.idx = idx;
        let p: *mut Trap = &mut *self.trap;
        IN.with(|c| c.set(p));
        f();
        IN.with(|c| c.set(std::ptr::null_mut()));
        let e = self.env();
        let calls = std::mem::take(&mut e.calls);
        let response = e.response.take();
        for call in calls {
            self.sent(call);
        }
        if let Some(r) = response {
            if let Some(m) = self.ctxs.get(&ctx).and_then(|c| c.method) {
                self.published(m, &r);
            }
            if let Some(c) = self.ctxs.get_mut(&ctx) {
                c.response = Some(r);
            }
        }
        true
    }

    /// A call that trapped had at least understood its argument.
    fn understood(&mut self, ctx: u64, text: &str) {
        if self.did.is_some() && text.contains(UNREAD) {
            let m = self.ctxs.get(&ctx).and_then(|c| c.method);
            self.fail(&["C31"], format!("{m:?} does not understand an argument its published interface admits: {text}"));
        }
    }
    /// Answers are values of the published types.
    fn published(&mut self, m: Method, r: &Response) {
        let (Some(d), Some(name), Response::Reply(b)) = (self.did.clone(), crate::did::name(m), r) else { return };
        self.label("answer");
        if m == Method::get_canister_status {
            self.label("canister status");
            let sent = self.status_sent.remove(&self.cur);
            if sent.as_ref().map_or(true, |s| d.reading(name, s) != d.reading(name, b)) {
                self.fail(&["C31"], "the canister status is not passed on as it is".into());
            }
        }
        if let Err(e) = d.answer(name, b) {
            self.fail(&["C31"], e);
        }
    }

    pub fn new_ctx(&mut self, caller: Principal, method: Option<Method>) -> u64 {
        self.next_ctx += 1;
        let id = self.next_ctx;
        let cx = Cx {
            id,
            caller,
            method,
            start: self.now,
            start_msg: self.msg,
            out: 0,
            response: None,
            trapped: false,
            entry_trap: false,
            injected: false,
            faulted: false,
            lcalls: vec![],
            seen_done: false,
            native_mints: 0,
            fee_mints: 0,
            class: if self.req.is_some() { REQUEST } else { 0 },
            req: self.req.take(),
        };
        self.ctxs.insert(id, cx);
        id
    }

    /// An update call from outside; returns its context.
    pub fn ingress(&mut self, method: Method, caller: Principal, arg: Vec<u8>) -> u64 {
        let id = self.new_ctx(caller, Some(method));
        self.log(|| format!("ingress {method:?} by {caller} -> context {id}"));
        // SAFETY: the canister's exported entry point.
        let ok = self.exec(id, caller, arg, None, || unsafe { method.call() });
        if !ok {
            let c = self.ctxs.get_mut(&id).unwrap();
            c.trapped = true;
            c.entry_trap = true;
        }
        self.after_message();
        id
    }

    /// A query; None when it trapped.
    pub fn query(&mut self, method: Method, arg: Vec<u8>) -> Option<Vec<u8>> {
        let id = u64::MAX;
        self.ctxs.remove(&id);
        // SAFETY: the canister's exported entry point.
        let ok = self.exec_query(id, arg, || unsafe { method.call() });
        match &ok {
            Some(r) => self.published(method, r),
            None => {
                let t = self.skip.get(&(self.msg - 1)).cloned().unwrap_or_default();
                if t.contains(UNREAD) && self.did.is_some() {
                    self.fail(&["C31"], format!("{method:?} does not understand an argument its published interface admits: {t}"));
                }
            }
        }
        match ok {
            Some(Response::Reply(b)) => Some(b),
            _ => None,
        }
    }
    fn exec_query(&mut self, id: u64, arg: Vec<u8>, f: impl FnOnce()) -> Option<Response> {
        let idx = self.msg;
        self.msg += 1;
        if self.skip.contains_key(&idx) {
            return None;
        }
        let now = self.now;
        let e = self.env();
        e.time = now;
        e.ctx = id;
        e.caller = vec![4];
        e.arg = arg;
        e.reply_buf.clear();
        e.response = None;
        e.calls.clear();
        self.trap.idx = idx;
        let p: *mut Trap = &mut *self.trap;
        IN.with(|c| c.set(p));
        f();
        IN.with(|c| c.set(std::ptr::null_mut()));
        let e = self.env();
        e.calls.clear();
        e.response.take()
    }

    fn sent(&mut self, call: OutCall) {
        let callee = Principal::from_slice(&call.callee);
        let class = match call.method.as_str() {
            "eth_getBlockByNumber" | "eth_getLogs" => SCRAPE,
            "eth_getTransactionCount" | "sign_with_ecdsa" | "eth_sendRawTransaction" | "eth_getTransactionReceipt" => RETRIEVE,
            "icrc1_transfer" => match Decode!(&call.arg, TransferArg) {
                Ok(a) => match a.memo.as_ref().map(|m| m.0.as_slice().get(1).copied()) {
                    Some(Some(1 | 2)) => REIMBURSE,
                    _ => MINT,
                },
                Err(_) => MINT,
            },
            _ => 0,
        };
        let ctx = call.ctx;
        self.log(|| format!("  context {ctx} calls {}", call.method));
        if class != 0 {
            *self.sent_by.entry(class).or_default() += 1;
            let other: Vec<u64> = self.ctxs.values().filter(|c| c.id != ctx && c.class & class != 0 && c.out > 0 && !c.trapped).map(|c| c.id).collect();
            if !other.is_empty() && class != REQUEST {
                self.fail(&["C11"], format!("two runs of the same background task overlap: context {ctx} calls {} while context {} of that kind is still running", call.method, other[0]));
            }
        }
        if call.method == "eth_getBlockByNumber" && self.ctxs.get(&ctx).map_or(false, |c| c.class & SCRAPE == 0) {
            self.facts.last_scrape_start = Some(self.now);
            self.facts.scrapes += 1;
        }
        if call.method == "eth_getLogs" {
            self.get_logs_sent(&call);
        }
        let class = match self.ctxs.get_mut(&ctx) {
            Some(c) => {
                c.out += 1;
                c.class |= class;
                c.class
            }
            None => class,
        };
        self.flights.push(Flight { call, callee, class, resp: None, note: Note::default() });
    }

    /// Things that can happen next: timers that are due, calls to execute, answers to deliver.
    pub fn choices(&self) -> Vec<Choice> {
        let mut v: Vec<Choice> = ic_cdk_timers::sim::due(self.now).into_iter().map(Choice::Timer).collect();
        let mut seen = BTreeSet::new();
        for (i, f) in self.flights.iter().enumerate() {
            if f.resp.is_some() {
                v.push(Choice::Deliver(i));
            } else if seen.insert(f.callee) {
                v.push(Choice::Execute(i));
            }
        }
        v
    }
    pub fn take(&mut self, c: Choice) {
        match c {
            Choice::Timer(id) => {
                let now = self.now;
                let ctx = self.new_ctx(me(), None);
                self.log(|| format!("timer {id:?} -> context {ctx}"));
                let ok = self.exec(ctx, me(), vec![], None, || ic_cdk_timers::sim::run(id, now, false));
                if !ok {
                    ic_cdk_timers::sim::run(id, now, true);
                    let c = self.ctxs.get_mut(&ctx).unwrap();
                    c.trapped = true;
                    c.entry_trap = true;
                    self.label("timer task trapped");
                }
                self.after_message();
            }
            Choice::Execute(i) => {
                let call = self.flights[i].call.clone();
                let callee = self.flights[i].callee;
                let mut note = Note::default();
                let resp = self.answer(callee, &call, &mut note);
                self.log(|| format!("  {} of context {} answered: {}", call.method, call.ctx, match &resp { Resp::Reply(b) => format!("{} bytes", b.len()), Resp::Reject(c, m) => format!("reject {c} {m}") }));
                self.flights[i].resp = Some(resp);
                self.flights[i].note = note;
            }
            Choice::Deliver(i) => self.deliver(i),
        }
    }
    fn deliver(&mut self, i: usize) {
        let f = self.flights.remove(i);
        let ctx = f.call.ctx;
        let caller = self.ctxs.get(&ctx).map(|c| c.caller).unwrap_or(me());
        let (fun, arg, data, reject) = match f.resp.unwrap() {
            Resp::Reply(b) => (f.call.reply_fun, f.call.reply_env, b, None),
            Resp::Reject(c, m) => (f.call.reject_fun, f.call.reject_env, vec![], Some((c, m))),
        };
        let class = f.class;
        let injected = match self.trap_next {
            Some(c) if class & c != 0 && reject.is_none() => {
                self.trap_next = None;
                true
            }
            _ => false,
        };
        self.log(|| format!("context {ctx}: answer of {} delivered{}", f.call.method, if injected { ", callback traps (injected)" } else { "" }));
        let ok = if injected {
            self.msg += 1;
            false
        } else {
            // SAFETY: pointers registered by ic-cdk for this call, used once.
            self.exec(ctx, caller, data, reject, || unsafe {
                let fun: extern "C-unwind" fn(isize) = std::mem::transmute(fun);
                fun(arg)
            })
        };
        if ok {
            self.delivered(&f.call, f.note);
        } else {
            if injected {
                self.label("injected trap");
                self.facts.injected.entry(class & !REQUEST).and_modify(|x| *x += 1).or_insert(1u32);
            } else {
                self.label("callback trapped");
            }
            if let Some(c) = self.ctxs.get_mut(&ctx) {
                c.trapped = true;
                c.injected |= injected;
            }
            if f.call.cleanup_fun != 0 {
                // SAFETY: as above.
                self.exec(ctx, caller, vec![], None, || unsafe {
                    let fun: extern "C-unwind" fn(isize) = std::mem::transmute(f.call.cleanup_fun);
                    fun(f.call.cleanup_env)
                });
            }
        }
        if let Some(c) = self.ctxs.get_mut(&ctx) {
            c.out -= 1;
        }
        self.after_message();
    }

    /// Runs everything that can happen without time passing.
    pub fn drain(&mut self, timers: bool) {
        for _ in 0..4000 {
            if self.hit() {
                return;
            }
            let c = self.choices().into_iter().find(|c| timers || !matches!(c, Choice::Timer(_)));
            match c {
                Some(c) => self.take(c),
                None => return,
            }
        }
        self.restless = true;
        self.fail(&["C02", "C04", "C05", "C07"], "the minter never comes to rest".into());
    }

    fn fault(&mut self, targets: &[u8], ctx: u64) -> Option<u8> {
        let i = self.faults.iter().position(|f| f.left > 0 && targets.contains(&f.target))?;
        self.faults[i].left -= 1;
        let kind = self.faults[i].kind;
        if self.faults[i].left == 0 {
            self.faults.remove(i);
        }
        if let Some(c) = self.ctxs.get_mut(&ctx) {
            c.faulted = true;
        }
        self.label("fault");
        Some(kind)
    }

    /// What the called canister does and answers.
    fn answer(&mut self, callee: Principal, call: &OutCall, note: &mut Note) -> Resp {
        let bad = |e: String| Resp::Reject(5, format!("cannot decode the argument: {e}"));
        if callee == Principal::management_canister() {
            return self.management(call).unwrap_or_else(bad);
        }
        if self.ledgers.contains_key(&callee) {
            return self.ledger_call(callee, call).unwrap_or_else(bad);
        }
        if callee == lsm() && call.method == "add_native_ls" {
            return self.announced(call).unwrap_or_else(bad);
        }
        if call.method.starts_with("eth_") {
            if callee != self.set.rpc {
                self.fail(&["C25", "C09"], format!("{} goes to canister {callee} instead of the configured {}", call.method, self.set.rpc));
            }
            return match self.rpc_call(call, note) {
                Ok(r) => r,
                Err(e) => {
                    self.fail(&["C13", "C14"], format!("malformed request {}: {e}", call.method));
                    bad(e)
                }
            };
        }
        Resp::Reject(3, "no such canister".into())
    }

    /// The minter tells the ledger suite manager about the ledger suite of its native coin.
    fn announced(&mut self, call: &OutCall) -> Result<Resp, String> {
        let a = Decode!(&call.arg, NativeSuite).map_err(|e| e.to_string())?;
        let i = self.facts.init.clone().ok_or("not installed")?;
        let hash = |s: &str| s.len() == 64 && s.bytes().all(|b| b.is_ascii_hexdigit());
        if a.symbol != i.native_symbol || a.ledger != i.native_ledger_id || a.index != i.native_index_id || a.chain_id != self.chain.id || !a.archives.is_empty() || !hash(&a.ledger_wasm_hash) || !hash(&a.index_wasm_hash) {
            self.fail(&["C30"], format!("announces {a:?} to the ledger suite manager, but is installed with {i:?} on chain {}", self.chain.id));
        }
        if self.facts.announced {
            self.fail(&["C30"], "announces its ledger suite again although it was accepted".into());
        }
        self.facts.announcements += 1;
        self.label("announced");
        let k = h(self.salt ^ 0x15) % 8;
        if k >= 4 {
            self.label("announcement refused");
        } else {
            self.facts.announced = true;
        }
        Ok(Resp::Reply(
            Encode!(&match k {
                4 => Err(LsmError::WasmHashError),
                5 => Err(LsmError::TokenAlreadyManaged),
                6 => Err(LsmError::AlreadyManagedPrincipals),
                7 => return Ok(Resp::Reject(4, "the ledger suite manager refuses".into())),
                _ => Ok(()),
            })
            .unwrap(),
        ))
    }

    fn management(&mut self, call: &OutCall) -> Result<Resp, String> {
        match call.method.as_str() {
            "ecdsa_public_key" => {
                let a = Decode!(&call.arg, PublicKeyArg).map_err(|e| e.to_string())?;
                if self.fault(&[T_KEY], call.ctx).is_some() {
                    return Ok(Resp::Reject(2, "no key now".into()));
                }
                let key = subnet_key(SEED, &a.key_id.name, &a.derivation_path);
                let reply = PublicKeyReply { public_key: key.verifying_key().to_encoded_point(true).as_bytes().to_vec().into(), chain_code: vec![7; 32].into() };
                Ok(Resp::Reply(Encode!(&reply).unwrap()))
            }
            "sign_with_ecdsa" => {
                let a = Decode!(&call.arg, SignArg).map_err(|e| e.to_string())?;
                if let Some(k) = self.fault(&[T_SIGN], call.ctx) {
                    return Ok(Resp::Reject(if k % 2 == 0 { 2 } else { 4 }, "signing failed".into()));
                }
                let key = subnet_key(SEED, &a.key_id.name, &a.derivation_path);
                let sig: k256::ecdsa::Signature = key.sign_prehash(&a.message_hash).map_err(|e| e.to_string())?;
                let sig = sig.normalize_s().unwrap_or(sig);
                Ok(Resp::Reply(Encode!(&SignReply { signature: sig.to_bytes().to_vec().into() }).unwrap()))
            }
            "canister_status" if self.did.is_some() => {
                let d = self.did.clone().unwrap();
                let status = d.random_answer("get_canister_status", mix(self.salt ^ self.msg)).0;
                self.status_sent.insert(call.ctx, status.clone());
                Ok(Resp::Reply(status))
            }
            _ => Ok(Resp::Reject(5, "not simulated".into())),
        }
    }

    fn ledger_call(&mut self, id: Principal, call: &OutCall) -> Result<Resp, String> {
        let native = id == native_ledger();
        let ctx = call.ctx;
        let now_sets = self.set.clone();
        match call.method.as_str() {
            "icrc1_transfer" => {
                let a = Decode!(&call.arg, TransferArg).map_err(|e| e.to_string())?;
                let mut lcall = LCall { ledger: id, from_call: false, result: Err(String::new()), faulted: false, spender_fees: false, from: None, to: a.to, amount: a.amount.0.clone() };
                let t: &[u8] = match native {
                    true if a.to == crate::oracle::fees_account() => &[T_MINT, T_MINTFEE],
                    true => &[T_MINT],
                    false => &[T_MINT20],
                };
                let r = match self.fault(t, ctx) {
                    Some(k) => {
                        lcall.faulted = true;
                        match k % 3 {
                            0 => Err(Resp::Reject(2, "ledger is stopping".into())),
                            1 => Ok(Err(TransferError::TemporarilyUnavailable)),
                            _ => Ok(Err(TransferError::GenericError { error_code: Nat::from(9u8), message: "oops".into() })),
                        }
                    }
                    None => Ok(self.ledgers.get_mut(&id).unwrap().transfer(me(), a, ctx)),
                };
                lcall.result = match &r {
                    Ok(Ok(i)) => Ok(*i),
                    Ok(Err(e)) => Err(format!("{e:?}")),
                    Err(_) => Err("reject".into()),
                };
                if let Some(c) = self.ctxs.get_mut(&ctx) {
                    c.lcalls.push(lcall);
                }
                Ok(match r {
                    Ok(r) => {
                        if r.is_ok() {
                            self.on_entry(id, &now_sets);
                        }
                        Resp::Reply(Encode!(&r.map(Nat::from)).unwrap())
                    }
                    Err(r) => r,
                })
            }
            "icrc2_transfer_from" => {
                let a = Decode!(&call.arg, TransferFromArgs).map_err(|e| e.to_string())?;
                let mut lcall = LCall { ledger: id, from_call: true, result: Err(String::new()), faulted: false, spender_fees: a.spender_subaccount == Some(FEES), from: Some(a.from), to: a.to, amount: a.amount.0.clone() };
                let t: &[u8] = match native {
                    true if a.from == crate::oracle::fees_account() => &[T_BURN, T_REFUND],
                    true if a.to == crate::oracle::acct(me()) => &[T_BURN, T_BURNONLY],
                    true => &[T_BURN],
                    false => &[T_BURN20],
                };
                let r = match self.fault(t, ctx) {
                    Some(k) => {
                        lcall.faulted = true;
                        match k % 3 {
                            0 => Err(Resp::Reject(2, "ledger is stopping".into())),
                            1 => Ok(Err(TransferFromError::TemporarilyUnavailable)),
                            _ => Ok(Err(TransferFromError::GenericError { error_code: Nat::from(9u8), message: "oops".into() })),
                        }
                    }
                    None => Ok(self.ledgers.get_mut(&id).unwrap().transfer_from(me(), a, ctx)),
                };
                lcall.result = match &r {
                    Ok(Ok(i)) => Ok(*i),
                    Ok(Err(e)) => Err(format!("{e:?}")),
                    Err(_) => Err("reject".into()),
                };
                if let Some(c) = self.ctxs.get_mut(&ctx) {
                    c.lcalls.push(lcall);
                }
                Ok(match r {
                    Ok(r) => {
                        if r.is_ok() {
                            self.on_entry(id, &now_sets);
                        }
                        Resp::Reply(Encode!(&r.map(Nat::from)).unwrap())
                    }
                    Err(r) => r,
                })
            }
            m => Ok(Resp::Reject(5, format!("the ledger has no method {m}"))),
        }
    }

    pub fn tag_block(&self, tag: u8) -> u64 {
        match tag {
            0 => self.chain.head,
            1 => self.chain.safe(),
            _ => self.chain.finalized(),
        }
    }
    pub fn margin(&self) -> u64 {
        use api::EvmNetwork::*;
        match crate::run::NETS[self.net] {
            BSC => 20,
            ArbitrumOne | Base | Optimism | Avalanche | Fantom => 12,
            _ => 0,
        }
    }

    fn block_tag(&self, t: &BlockTag) -> Result<u64, String> {
        Ok(match t {
            BlockTag::Latest => self.chain.head,
            BlockTag::Finalized => self.chain.finalized(),
            BlockTag::Safe => self.chain.safe(),
            BlockTag::Number(x) => u64::try_from(to_n(x)).map_err(|_| "block number above 64 bits".to_string())?,
            _ => return Err(format!("unexpected block tag {t:?}")),
        })
    }

    fn rpc_call(&mut self, call: &OutCall, note: &mut Note) -> Result<Resp, String> {
        let ctx = call.ctx;
        let chain_id = self.chain.id;
        macro_rules! args {
            ($t:ty) => {{
                let (s, _c, a) = Decode!(&call.arg, RpcServices, Option<RpcConfig>, $t).map_err(|e| e.to_string())?;
                (s, a)
            }};
        }
        let salt = mix(self.salt ^ self.msg.wrapping_mul(77));
        match call.method.as_str() {
            "eth_getBlockByNumber" => {
                let (s, t) = args!(BlockTag);
                self.providers(&s, "block");
                let tag = [BlockTag::Latest, BlockTag::Safe, BlockTag::Finalized][self.set.tag as usize].clone();
                if t != tag {
                    self.fail(&["C23", "C25"], format!("asks for block {t:?} but {tag:?} is configured"));
                }
                let b = self.block_tag(&t)?;
                let v = rpc::block(Nat256::from(b), Some(Nat256::from(self.chain.base)), 1);
                let alt = rpc::block(Nat256::from(b + 1), Some(Nat256::from(self.chain.base)), 2);
                let f = self.fault(&[T_BLOCK], ctx);
                Ok(self.multi(&s, v, alt, f))
            }
            "eth_getLogs" => {
                let (s, a) = args!(GetLogsArgs);
                self.providers(&s, "logs");
                let from = self.block_tag(a.from_block.as_ref().ok_or("no start block")?)?;
                let to = self.block_tag(a.to_block.as_ref().ok_or("no end block")?)?;
                let f = self.fault(&[T_LOGS], ctx);
                let logs = self.chain.logs(from, to, &a.addresses, a.topics.as_deref().unwrap_or(&[]));
                if f == Some(5) || logs.len() > self.chain.max_logs {
                    note.too_large = Some((from, to));
                    self.label("logs too large");
                    let e = RpcError::HttpOutcallError(HttpOutcallError::IcError { code: ic_cdk::api::call::RejectionCode::SysFatal, message: "Http body exceeds size limit of 2000000 bytes.".into() });
                    return Ok(Resp::Reply(Encode!(&MultiRpcResult::<Vec<LogEntry>>::Consistent(Err(e))).unwrap()));
                }
                let mut alt = logs.clone();
                if salt % 3 == 0 && !alt.is_empty() {
                    alt.remove(salt as usize / 3 % logs.len());
                } else {
                    alt.push(self.chain.fake_log(from + salt % (to - from + 1), salt, &a.addresses));
                }
                Ok(self.multi(&s, logs, alt, f))
            }
            "eth_feeHistory" => {
                let (s, a) = args!(FeeHistoryArgs);
                self.providers(&s, "fees");
                let blocks = u64::try_from(to_n(&a.block_count)).map_err(|_| "block count")?;
                if blocks == 0 || blocks > 1024 || a.newest_block != BlockTag::Latest {
                    self.fail(&["C15"], format!("unexpected fee history request {a:?}"));
                }
                let head = self.chain.head;
                let (base, prio) = (self.chain.base, self.chain.prio);
                let bases: Vec<u64> = (0..blocks).map(|i| (base + mix(head + i) % 9).saturating_sub(4).max(7)).chain([base]).collect();
                let rewards: Vec<u64> = (0..blocks).map(|i| prio + mix(salt ^ i) % (prio / 4 + 3)).collect();
                let v = FeeHistory {
                    oldest_block: Nat256::from(head.saturating_sub(blocks - 1)),
                    base_fee_per_gas: bases.iter().map(|b| Nat256::from(*b)).collect(),
                    gas_used_ratio: vec![0.5; blocks as usize],
                    reward: rewards.iter().map(|r| vec![Nat256::from(*r)]).collect(),
                };
                let mut sorted = rewards.clone();
                sorted.sort();
                let p = n(sorted[sorted.len() / 2] as u128).max(self.set.min_prio.clone());
                let f = self.fault(&[T_FEES], ctx);
                if matches!(f, None | Some(2 | 3)) {
                    note.estimate = Some((n(base as u128) * 2u8 + &p, p, f.is_none()));
                }
                Ok(self.multi(&s, Some(v), None, f))
            }
            "eth_getTransactionCount" => {
                let (s, a) = args!(GetTransactionCountArgs);
                self.providers(&s, if a.block == BlockTag::Latest { "count" } else { "final count" });
                if a.address != Hex20::from(self.chain.minter) {
                    self.fail(&["C08", "C06"], format!("asks for the transactions of {:?}, not of the minter", a.address));
                }
                let b = self.block_tag(&a.block)?;
                let c = self.chain.nonce_at(b);
                let f = self.fault(&[T_COUNT], ctx);
                if a.block == BlockTag::Latest && f.is_none() {
                    note.latest = Some(c);
                }
                Ok(self.multi(&s, Nat256::from(c), Nat256::from(c + 1), f))
            }
            "eth_getTransactionReceipt" => {
                let (s, a) = args!(String);
                self.providers(&s, "receipts");
                let hash: [u8; 32] = hex::decode(a.trim_start_matches("0x")).ok().and_then(|v| v.try_into().ok()).ok_or("not a hash")?;
                let f = self.fault(&[T_RECEIPT], ctx);
                let r = self.chain.mined.iter().find(|m| m.tx.hash == hash).map(|m| {
                    let mut r = rpc::receipt(hash, Nat256::from(m.block), from_n(&m.price), from_n(&m.gas_used), Some(Nat256::from(m.success as u8)), 0);
                    r.block_hash = Hex32::from(self.chain.block_hash(m.block));
                    r
                });
                let alt = match &r {
                    Some(r) if salt % 2 == 0 => {
                        let mut r = r.clone();
                        r.status = Some(Nat256::from(if r.status == Some(Nat256::from(1u8)) { 0u8 } else { 1 }));
                        Some(r)
                    }
                    Some(r) => {
                        let mut r = r.clone();
                        r.gas_used = Nat256::from(1u8);
                        Some(r)
                    }
                    None => Some(rpc::receipt(hash, Nat256::from(self.chain.head), Nat256::from(1u8), Nat256::from(21000u64), Some(Nat256::from((salt / 2 % 2) as u8)), 9)),
                };
                Ok(self.multi(&s, r, alt, f))
            }
            "eth_sendRawTransaction" => {
                let (s, a) = args!(String);
                self.providers(&s, "send");
                let raw = hex::decode(a.strip_prefix("0x").unwrap_or("z")).map_err(|e| format!("not hex: {e}"))?;
                let f = self.fault(&[T_SEND], ctx);
                let tx = match decode_tx(&raw) {
                    Ok(t) => t,
                    Err(e) => {
                        self.fail(&["C08"], format!("sends an invalid transaction: {e}"));
                        return Err(e);
                    }
                };
                self.on_send(&tx, chain_id);
                // Faults 0, 1: nothing was accepted. Others: the network has it although the answer may say otherwise.
                if matches!(f, Some(0 | 1)) {
                    return Ok(self.multi(&s, SendRawTransactionStatus::NonceTooHigh, SendRawTransactionStatus::NonceTooHigh, f));
                }
                let status = match self.chain.submit(&tx) {
                    Submitted::Accepted | Submitted::Known => SendRawTransactionStatus::Ok(Some(Hex32::from(tx.hash))),
                    Submitted::NonceTooLow => SendRawTransactionStatus::NonceTooLow,
                    Submitted::InsufficientFunds => {
                        self.fail(&["C03"], format!("the minter's chain balance cannot cover transaction {} (value {}, gas {} at {})", hex::encode(tx.hash), tx.value, tx.gas, tx.max));
                        SendRawTransactionStatus::InsufficientFunds
                    }
                    Submitted::Invalid => {
                        self.fail(&["C08"], format!("the network refuses transaction {tx:?}"));
                        return Err("invalid transaction".into());
                    }
                };
                let alt = if salt % 2 == 0 { SendRawTransactionStatus::NonceTooLow } else { SendRawTransactionStatus::InsufficientFunds };
                let f = f.map(|k| if k == 6 { 1 } else { k });
                Ok(self.multi(&s, status, alt, f))
            }
            m => Err(format!("no method {m}")),
        }
    }

    /// Requests of one kind always go to the same providers of the configured chain.
    fn providers(&mut self, s: &RpcServices, kind: &'static str) {
        if let RpcServices::Custom { chain_id, .. } = s {
            if *chain_id != self.chain.id {
                self.fail(&["C23"], format!("{kind} request for chain {chain_id} instead of {}", self.chain.id));
            }
        }
        match self.services.get(kind) {
            Some(old) if old != s => {
                let text = format!("{kind} requests went to {old:?}, now to {s:?}");
                self.fail(&["C23", "C09"], text);
            }
            Some(_) => {}
            None => {
                self.services.insert(kind, s.clone());
            }
        }
    }

    fn multi<T: CandidType + Clone>(&mut self, s: &RpcServices, value: T, alt: T, fault: Option<u8>) -> Resp {
        let list: Vec<RpcService> = match s {
            RpcServices::Custom { services, .. } => services.iter().cloned().map(RpcService::Custom).collect(),
            _ => (0..3).map(RpcService::Provider).collect(),
        };
        let json = |i: i64| RpcError::JsonRpcError(JsonRpcError { code: -32000 - i, message: "temporarily broken".into() });
        let pick = (mix(self.salt ^ self.msg) % list.len().max(1) as u64) as usize;
        let spread = |special: RpcResult<T>| MultiRpcResult::Inconsistent(list.iter().cloned().enumerate().map(|(i, s)| (s, if i == pick { special.clone() } else { Ok(value.clone()) })).collect());
        let r: MultiRpcResult<T> = match fault {
            None => MultiRpcResult::Consistent(Ok(value)),
            Some(0) => return Resp::Reject(2, "rpc canister unavailable".into()),
            Some(4) => MultiRpcResult::Consistent(Err(RpcError::ProviderError(ProviderError::TooFewCycles { expected: 90_000_000_000, received: 30_000_000_000 }))),
            Some(2) if list.len() > 1 => {
                self.label("one provider fails");
                spread(Err(json(1)))
            }
            Some(3) if list.len() > 1 => {
                self.label("one provider lies");
                spread(Ok(alt))
            }
            Some(k) => MultiRpcResult::Consistent(Err(json(k as i64))),
        };
        Resp::Reply(Encode!(&r).unwrap())
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Choice {
    Timer(ic_cdk_timers::TimerId),
    Execute(usize),
    Deliver(usize),
}
