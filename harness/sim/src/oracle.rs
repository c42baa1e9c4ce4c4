//! What the minter may and must do, checked against the ledgers and the chain after every message.
use crate::api::{self, EventPayload as E};
use crate::chain::{decode_transfer, decode_tx, Tx};
use crate::ledger::{Entry, Kind};
use crate::world::*;
use crate::{n, Addr, N};
use candid::{Decode, Encode, Nat, Principal};
use ic0::sim::{OutCall, Response};
use icrc_ledger_types::icrc1::account::Account;
use std::collections::{BTreeMap, BTreeSet};
use kit::{eip55, V};

pub const NS: u64 = 1_000_000_000;
pub const GAS: u64 = 21_000;
pub const GAS20: u64 = 65_000;

#[derive(Clone, Debug, PartialEq)]
pub struct Token {
    pub contract: Addr,
    pub ledger: Principal,
    pub symbol: String,
    pub at: u64,
}

/// A withdrawal request as it was made.
#[derive(Clone, Debug)]
pub struct Req {
    pub amount: N,
    pub dest: Option<Addr>,
    /// Ledger of the token; None: native.
    pub ledger: Option<Principal>,
    pub must_trap: Option<&'static str>,
    pub may_trap: bool,
    /// Estimate that was in force when the request began, and how many were known.
    pub estimates: usize,
    /// A fee estimate was being obtained when the request came in.
    pub refreshing: bool,
    /// Balances of the caller before (native, token).
    pub set: Settings,
    pub token: Option<Token>,
}

#[derive(Clone, Debug, Default)]
pub struct Dep {
    pub accepted: bool,
    pub minted: Option<(Principal, u64)>,
    pub recorded: bool,
    pub quarantined: bool,
    pub invalid: bool,
    /// Need not be credited (and why).
    pub exempt: Option<&'static str>,
    pub covered: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ver {
    pub nonce: u64,
    pub prio: N,
    pub max: N,
    pub gas: N,
    pub to: Addr,
    pub value: N,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Wd {
    pub id: u64,
    pub native: bool,
    /// Amount burned (native) or to transfer (token).
    pub amount: N,
    /// Native burned for gas (token withdrawals).
    pub gas_fee: N,
    pub dest: Addr,
    pub from: Principal,
    pub ledger: Principal,
    pub contract: Addr,
    pub burn20: u64,
    pub ctx: u64,
    pub at: u64,
    pub recorded: bool,
    pub lost: bool,
    pub versions: Vec<Ver>,
    pub signed: Vec<[u8; 32]>,
    pub current_signed: bool,
    /// Hash, success, fee really paid.
    pub finalized: Option<([u8; 32], bool, N)>,
    pub reimbursed: Option<(u64, N)>,
    pub quarantined: bool,
}
impl Wd {
    pub fn reimbursement_key(&self) -> (Principal, u64) {
        if self.native {
            (native_ledger(), self.id)
        } else {
            (self.ledger, self.burn20)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Paid {
    pub index: u64,
    pub amount: N,
    pub hash: Option<[u8; 32]>,
    pub recorded: bool,
}

#[derive(Clone, Debug)]
pub struct Est {
    pub at: u64,
    pub msg: u64,
    pub max: N,
    pub prio: N,
    pub sure: bool,
}

/// An ERC-20 withdrawal whose token burn failed after the gas fee was burned.
#[derive(Clone, Debug)]
pub struct FailedBurn {
    pub min: N,
    pub max: N,
    pub to: Principal,
    pub recorded: Option<N>,
    pub quarantined: bool,
    pub lost: bool,
}

#[derive(Default)]
pub struct Facts {
    pub last_scrape_start: Option<u64>,
    pub scrapes: u64,
    pub injected: BTreeMap<u8, u32>,
    pub init: Option<api::InitArg>,
    pub upgrade: Option<api::UpgradeArg>,
    pub upgraded: bool,
    /// Answers last decoded, with their encoding.
    pub read_events: Option<(Vec<u8>, api::GetEventsResult)>,
    pub read_info: Option<(Vec<u8>, api::MinterInfo)>,
    /// Block the operator moved the scraping to.
    pub skipped_to: Option<u64>,
    pub skips: Vec<(u64, u64)>,
    pub events: Vec<api::Event>,
    pub info: Option<api::MinterInfo>,
    pub memos: BTreeMap<Vec<u8>, usize>,
    pub deps: Vec<Dep>,
    pub tokens: Vec<Token>,
    pub adding: Option<(Principal, api::AddErc20Token)>,
    pub wds: BTreeMap<u64, Wd>,
    pub failed: BTreeMap<u64, FailedBurn>,
    pub paid: BTreeMap<(Principal, u64), Paid>,
    pub next_nonce: u64,
    pub nonces: BTreeMap<u64, u64>,
    pub signed: BTreeMap<[u8; 32], u64>,
    pub sent: BTreeSet<[u8; 32]>,
    pub estimates: Vec<Est>,
    pub latest: Option<u64>,
    pub too_large: BTreeSet<u64>,
    pub skipped: BTreeSet<u64>,
    pub quarantines: [u32; 2],
    pub finalized_ev: u32,
    pub replaced: u32,
    pub spent: N,
    pub spent20: BTreeMap<Addr, N>,
    pub credited: N,
    pub credited20: BTreeMap<Addr, N>,
    pub refund_faulted: bool,
    pub announced: bool,
    pub announcements: u32,
}

pub fn acct(owner: Principal) -> Account {
    Account { owner, subaccount: None }
}
pub fn fees_account() -> Account {
    Account { owner: me(), subaccount: Some(FEES) }
}
pub fn to_u64(v: &Nat) -> u64 {
    u64::try_from(&v.0).unwrap_or(u64::MAX)
}
pub fn hex32(s: &str) -> Option<[u8; 32]> {
    hex::decode(s.strip_prefix("0x")?).ok()?.try_into().ok()
}
pub fn hexs(h: &[u8]) -> String {
    format!("0x{}", hex::encode(h))
}
/// Reads an address in any letter case.
pub fn addr(s: &str) -> Option<Addr> {
    hex::decode(s.strip_prefix("0x")?).ok()?.try_into().ok()
}

fn mint_memo(d: &crate::chain::Deposit) -> Vec<u8> {
    V::variant(0, vec![V::b(&d.from), V::b(&d.hash), V::Nat(n(d.index as u128))]).encode(false)
}
/// Withdrawal id and transaction hash of a reimbursement memo.
fn reimburse_memo(m: &[u8]) -> Option<(u64, Option<[u8; 32]>)> {
    let mut d = minicbor::Decoder::new(m);
    if d.array().ok()? != Some(2) {
        return None;
    }
    let kind = d.u64().ok()?;
    d.array().ok()?;
    let id = d.u64().ok()?;
    let hash: Option<[u8; 32]> = if kind == 1 { Some(d.bytes().ok()?.try_into().ok()?) } else { None };
    let v = match (kind, hash) {
        (1, Some(h)) => V::variant(1, vec![V::Int(id), V::b(&h)]),
        (2, _) => V::variant(2, vec![V::Int(id)]),
        _ => return None,
    };
    (v.encode(false) == m).then_some((id, hash))
}

impl World {
    fn sync_deposits(&mut self) {
        for i in self.facts.deps.len()..self.chain.deposits.len() {
            let m = mint_memo(&self.chain.deposits[i]);
            self.facts.memos.insert(m, i);
            self.facts.deps.push(Dep::default());
        }
    }
    pub fn token_by_ledger(&self, l: &Principal) -> Option<&Token> {
        self.facts.tokens.iter().find(|t| t.ledger == *l)
    }
    pub fn token_by_contract(&self, c: &Addr) -> Option<&Token> {
        self.facts.tokens.iter().find(|t| t.contract == *c)
    }
    pub fn in_flight(&self) -> usize {
        self.ctxs.values().filter(|c| c.req.is_some() && !c.done() && !c.trapped).count()
    }
    pub fn last_scraped(&self) -> u64 {
        self.facts.info.as_ref().and_then(|i| i.last_scraped_block_number.as_ref()).map(to_u64).unwrap_or(0)
    }

    // ---- calls of the minter ----

    pub fn get_logs_sent(&mut self, call: &OutCall) {
        use evm_rpc_types::*;
        let Ok((_, _, a)) = Decode!(&call.arg, RpcServices, Option<RpcConfig>, GetLogsArgs) else { return };
        let num = |t: &Option<BlockTag>| match t {
            Some(BlockTag::Number(x)) => u64::try_from(to_n(x)).ok(),
            _ => None,
        };
        let (Some(from), Some(to)) = (num(&a.from_block), num(&a.to_block)) else {
            self.fail(&["C23", "C02"], format!("logs requested for blocks {:?} to {:?}", a.from_block, a.to_block));
            return;
        };
        let limit = self.deepest();
        if to > limit.unwrap_or(0) {
            let text = format!("logs up to block {to} are requested, but only blocks up to {limit:?} are deep enough (head {}, tag block {}, margin {})", self.chain.head, self.tag_block(self.set.tag), self.margin());
            self.fail(&["C23"], text);
        }
        if to < from || to - from >= 1000 {
            self.fail(&["C21", "C02"], format!("logs requested for blocks {from} to {to}"));
        }
        if a.addresses != vec![Hex20::from(self.set.helper)] {
            self.fail(&["C16", "C25"], format!("logs of {:?} requested, the helper contract is {}", a.addresses, hex::encode(self.set.helper)));
        }
        self.label("get logs");
    }
    /// Highest block deep enough to act on (with the current tag).
    pub fn deepest(&self) -> Option<u64> {
        self.tag_block(self.set.tag).checked_sub(self.margin())
    }

    pub fn delivered(&mut self, _call: &OutCall, note: Note) {
        if let Some((max, prio, sure)) = note.estimate {
            let e = Est { at: self.now, msg: self.msg, max, prio, sure };
            self.facts.estimates.push(e);
        }
        if let Some(c) = note.latest {
            self.facts.latest = Some(c);
        }
        if let Some((a, b)) = note.too_large {
            if a == b {
                self.facts.too_large.insert(a);
            }
        }
    }

    pub fn on_send(&mut self, tx: &Tx, chain_id: u64) {
        if tx.signer != Some(self.chain.minter) {
            self.fail(&["C08"], format!("transaction {} is signed by {:?}, not by the minter {}", hexs(&tx.hash), tx.signer.map(hex::encode), hex::encode(self.chain.minter)));
        }
        if tx.chain != n(chain_id as u128) {
            self.fail(&["C08", "C23"], format!("transaction for chain {} instead of {chain_id}", tx.chain));
        }
        if !self.facts.signed.contains_key(&tx.hash) {
            self.fail(&["C08", "C26", "C12"], format!("transaction {} is sent but no signed transaction of that hash is recorded", hexs(&tx.hash)));
        }
        if self.facts.sent.insert(tx.hash) {
            self.label("transaction sent");
        }
    }

    // ---- ledger entries ----

    pub fn on_entry(&mut self, ledger: Principal, set: &Settings) {
        self.sync_deposits();
        let e = self.ledgers[&ledger].entries.last().unwrap().clone();
        self.log(|| format!("  ledger {ledger}: {e:?}"));
        match e.kind {
            Kind::Mint => self.on_mint(ledger, e, set),
            Kind::Burn | Kind::Transfer => self.on_debit(ledger, e),
        }
    }

    fn on_mint(&mut self, ledger: Principal, e: Entry, set: &Settings) {
        let native = ledger == native_ledger();
        let Some(memo) = e.memo.clone() else {
            // Fees.
            if !native || e.to != fees_account() || e.amount != set.dfee || set.dfee == n(0) {
                self.fail(&["C01", "C24"], format!("mint without memo of {} to {} on ledger {ledger} (deposit fee {})", e.amount, e.to.owner, set.dfee));
            }
            self.label("fee mint");
            if let Some(c) = self.ctxs.get_mut(&e.ctx) {
                c.fee_mints += 1;
            }
            return;
        };
        if let Some(&i) = self.facts.memos.get(&memo) {
            let d = self.chain.deposits[i].clone();
            let due = if d.token == [0; 20] {
                native_ledger()
            } else {
                match self.token_by_contract(&d.token) {
                    Some(t) => t.ledger,
                    None => {
                        self.fail(&["C01", "C27"], format!("mint for a deposit of unsupported token {}", hex::encode(d.token)));
                        return;
                    }
                }
            };
            if ledger != due {
                self.fail(&["C01", "C27"], format!("deposit of token {} minted on ledger {ledger} instead of {due}", hex::encode(d.token)));
            }
            if !d.valid {
                self.fail(&["C01", "C16"], format!("mint for an invalid deposit {}/{}", hexs(&d.hash), d.index));
            }
            let want = Account { owner: d.owner, subaccount: d.sub };
            if e.to != want {
                self.fail(&["C01"], format!("deposit for {want:?} minted to {:?}", e.to));
            }
            let fee = if d.token == [0; 20] { set.dfee.clone() } else { n(0) };
            if &e.amount + &fee != d.value {
                self.fail(&["C01"], format!("deposit of {} minted as {} (deposit fee {fee})", d.value, e.amount));
            }
            if Some(d.block) > self.deepest_ever() {
                self.fail(&["C23", "C01"], format!("deposit in block {} minted too early", d.block));
            }
            if let Some(first) = self.facts.deps[i].minted {
                self.fail(&["C01", "C03"], format!("deposit {}/{} of {} minted twice: in ledger blocks {} and {}", hexs(&d.hash), d.index, d.value, first.1, e.index));
            }
            self.facts.deps[i].minted = Some((ledger, e.index));
            self.label(if native { "native mint" } else { "token mint" });
            if native {
                if let Some(c) = self.ctxs.get_mut(&e.ctx) {
                    c.native_mints += 1;
                }
            }
            return;
        }
        let Some((id, hash)) = reimburse_memo(&memo) else {
            self.fail(&["C01", "C24"], format!("mint of {} to {} on {ledger} with unknown memo {}", e.amount, e.to.owner, hex::encode(&memo)));
            return;
        };
        // A reimbursement.
        let key = (ledger, id);
        let (to, min, max, why) = match hash {
            Some(hash) => {
                let Some(w) = self.facts.wds.values().find(|w| w.reimbursement_key() == key).cloned() else {
                    self.fail(&["C07", "C01", "C24"], format!("reimbursement of {} on {ledger} for unknown withdrawal {id}", e.amount));
                    return;
                };
                let Some(m) = self.chain.mined.iter().find(|m| m.tx.hash == hash).cloned() else {
                    self.fail(&["C07", "C24"], format!("reimbursement of withdrawal {id} names transaction {} which was never mined", hexs(&hash)));
                    return;
                };
                if m.success || m.block > self.chain.finalized() {
                    self.fail(&["C07", "C03"], format!("withdrawal {id} reimbursed although its transaction {} {}", hexs(&hash), if m.success { "succeeded" } else { "is not final" }));
                }
                if w.versions.first().map(|v| v.nonce) != Some(m.tx.nonce) {
                    self.fail(&["C07", "C24"], format!("reimbursement of withdrawal {id} names transaction {} of another", hexs(&hash)));
                }
                let due = if w.native { m.tx.value.clone() } else { w.amount.clone() };
                (w.from, due.clone(), due, "failed transaction")
            }
            None => {
                let entry = if ledger == native_ledger() { id.checked_sub(self.ledgers[&ledger].first).and_then(|i| self.ledgers[&ledger].entries.get(i as usize)).cloned() } else { None };
                let burn = entry.filter(|x| x.kind == Kind::Burn);
                let Some(burn) = burn else {
                    self.fail(&["C07", "C01", "C24"], format!("reimbursement of {} on {ledger} for unknown burn {id}", e.amount));
                    return;
                };
                let c = self.ctxs.get(&burn.ctx).cloned();
                let failed = c.map_or(false, |c| c.req.as_ref().map_or(false, |r| r.ledger.is_some()) && c.lcalls.iter().any(|l| l.ledger != native_ledger() && l.result.is_err()) && !c.lcalls.iter().any(|l| l.ledger != native_ledger() && l.result.is_ok()));
                if !failed {
                    self.fail(&["C07", "C03", "C24"], format!("gas fee of burn {id} reimbursed although the token burn did not fail"));
                }
                let least = if burn.amount > set.tf { &burn.amount - &set.tf } else { n(0) };
                (burn.from.owner, least.min(self.facts.failed.get(&id).map(|f| f.min.clone()).unwrap_or(burn.amount.clone())), burn.amount.clone(), "failed burn")
            }
        };
        if e.to != acct(to) {
            self.fail(&["C07"], format!("reimbursement ({why}) of withdrawal {id} goes to {:?} instead of {to}", e.to));
        }
        if e.amount < min || e.amount > max {
            self.fail(&["C07"], format!("reimbursement ({why}) of withdrawal {id} is {}, due is {min} to {max}", e.amount));
        }
        if let Some(p) = self.facts.paid.get(&key) {
            let text = format!("withdrawal {id} on {ledger} reimbursed twice: in ledger blocks {} and {}", p.index, e.index);
            self.fail(&["C07", "C03"], text);
        }
        self.label(if hash.is_some() { "reimbursement of a failed transaction" } else { "reimbursement of a gas fee" });
        self.facts.paid.insert(key, Paid { index: e.index, amount: e.amount, hash, recorded: false });
    }

    /// The deepest block any setting so far allowed.
    fn deepest_ever(&self) -> Option<u64> {
        self.tag_block(0).checked_sub(self.margin())
    }

    fn on_debit(&mut self, ledger: Principal, e: Entry) {
        let native = ledger == native_ledger();
        let Some(c) = self.ctxs.get(&e.ctx).cloned() else { return };
        let Some(req) = c.req.clone() else {
            self.fail(&["C10", "C11", "C04"], format!("debit {e:?} outside of any withdrawal request"));
            return;
        };
        let refund = e.kind == Kind::Transfer && e.from == fees_account() && e.to == acct(c.caller);
        if !refund && e.from != acct(c.caller) {
            self.fail(&["C11", "C10", "C04", "C05"], format!("request of {} debits {:?}", c.caller, e.from));
        }
        if refund {
            self.label("service fee refunded");
            return;
        }
        if e.kind == Kind::Transfer {
            if !native || e.to != fees_account() {
                self.fail(&["C10", "C04", "C05"], format!("request of {} transfers {} to {:?} on {ledger}", c.caller, e.amount, e.to));
            }
            return;
        }
        let Some(dest) = req.dest else {
            self.fail(&["C10", "C17", "C04", "C05"], format!("burn for a request with an invalid recipient: {e:?}"));
            return;
        };
        let memo = e.memo.clone().unwrap_or_default();
        let want = match (&req.ledger, native) {
            (None, true) => V::variant(0, vec![V::b(&dest)]).encode(false),
            (Some(_), true) => {
                let sym = req.token.as_ref().map(|t| t.symbol.clone()).unwrap_or_default();
                V::variant(1, vec![V::t(&sym), V::Nat(req.amount.clone()), V::b(&dest)]).encode(false)
            }
            (Some(_), false) => {
                let id = self.native_burn(e.ctx).map(|b| b.index).unwrap_or(u64::MAX);
                V::variant(2, vec![V::Int(id), V::b(&dest)]).encode(false)
            }
            (None, false) => {
                self.fail(&["C04"], format!("native withdrawal burns on ledger {ledger}"));
                return;
            }
        };
        if memo != want {
            self.fail(&["C24"], format!("burn memo {} instead of {}", hex::encode(&memo), hex::encode(&want)));
        }
        let mut w = Wd {
            id: e.index,
            native: true,
            amount: e.amount.clone(),
            gas_fee: n(0),
            dest,
            from: c.caller,
            ledger: native_ledger(),
            contract: [0; 20],
            burn20: 0,
            ctx: e.ctx,
            at: self.now,
            recorded: false,
            lost: false,
            versions: vec![],
            signed: vec![],
            current_signed: false,
            finalized: None,
            reimbursed: None,
            quarantined: false,
        };
        match (&req.ledger, native) {
            (None, true) => {
                self.facts.wds.insert(w.id, w);
            }
            (Some(l), false) => {
                if ledger != *l {
                    self.fail(&["C05", "C27"], format!("withdrawal from ledger {l} burns on {ledger}"));
                }
                let Some(b) = self.native_burn(e.ctx) else {
                    self.fail(&["C05"], format!("tokens burned for {} before any gas fee", c.caller));
                    return;
                };
                w.id = b.index;
                w.native = false;
                w.gas_fee = b.amount;
                w.ledger = ledger;
                w.burn20 = e.index;
                w.contract = self.token_by_ledger(&ledger).map(|t| t.contract).unwrap_or([0; 20]);
                self.facts.wds.insert(w.id, w);
            }
            _ => {
                // The gas fee of a token withdrawal: an estimate that was fresh enough.
                let from = self.facts.estimates[..req.estimates].iter().rposition(|x| x.sure).unwrap_or(0);
                let ok = self.facts.estimates[from..].iter().enumerate().any(|(i, x)| &x.max * GAS20 == e.amount && (from + i >= req.estimates || x.at + 30 * NS >= c.start));
                if !ok {
                    let known: Vec<String> = self.facts.estimates[from..].iter().map(|x| format!("{} at {}", x.max, x.at)).collect();
                    self.fail(&["C15", "C05"], format!("gas fee {} burned at {}, estimates {known:?}, request started {}", e.amount, self.now, c.start));
                }
            }
        }
    }
    fn native_burn(&self, ctx: u64) -> Option<Entry> {
        self.ledgers[&native_ledger()].entries.iter().rev().find(|x| x.ctx == ctx && x.kind == Kind::Burn).cloned()
    }

    // ---- after every message ----

    pub fn after_message(&mut self) {
        self.sync_deposits();
        if self.facts.init.is_none() {
            return;
        }
        self.poll_events();
        self.poll_info();
        self.finish_contexts();
        self.backing();
    }

    pub fn read_events(&mut self, start: u64, length: u64) -> Option<api::GetEventsResult> {
        let b = self.query(Method::get_events, Encode!(&api::GetEventsArg { start, length }).unwrap())?;
        if let Some((k, v)) = &self.facts.read_events {
            if *k == b {
                return Some(v.clone());
            }
        }
        let v = Decode!(&b, api::GetEventsResult).ok()?;
        self.facts.read_events = Some((b, v.clone()));
        Some(v)
    }

    fn poll_events(&mut self) {
        loop {
            let have = self.facts.events.len() as u64;
            let Some(r) = self.read_events(have, 100) else {
                self.fail(&["C26", "C09"], format!("reading events from {have} fails"));
                return;
            };
            let want = (r.total_event_count.saturating_sub(have)).min(100);
            if r.total_event_count < have || r.events.len() as u64 != want {
                self.fail(&["C26", "C09"], format!("{} events returned from {have} on, with a total of {}", r.events.len(), r.total_event_count));
                return;
            }
            if r.events.is_empty() {
                return;
            }
            for e in r.events {
                self.on_event(e);
            }
        }
    }

    fn on_event(&mut self, e: api::Event) {
        self.log(|| format!("  event {}", format!("{:?}", e.payload).chars().take(300).collect::<String>()));
        if e.timestamp != self.now {
            self.fail(&["C26"], format!("event recorded at {} carries time {}", self.now, e.timestamp));
        }
        self.facts.events.push(e.clone());
        match e.payload {
            E::Init(a) => {
                if self.facts.events.len() != 1 || Some(&a) != self.facts.init.as_ref() {
                    self.fail(&["C26", "C25"], format!("unexpected init event {a:?}"));
                }
            }
            E::Upgrade(a) => {
                if self.facts.upgrade.take().as_ref() != Some(&a) {
                    self.fail(&["C26", "C25"], format!("unexpected upgrade event {a:?}"));
                }
            }
            E::SyncedToBlock { block_number } => {
                if to_u64(&block_number) != self.last_scraped() {
                    let text = format!("recorded as synced to block {block_number}, reported was {}", self.last_scraped());
                    self.fail(&["C26", "C02", "C09"], text);
                }
            }
            E::AcceptedDeposit { transaction_hash, block_number, log_index, from_address, value, principal, subaccount } => {
                self.on_accept(transaction_hash, block_number, log_index, from_address, value, principal, subaccount, None);
            }
            E::AcceptedErc20Deposit { transaction_hash, block_number, log_index, from_address, value, principal, erc20_contract_address, subaccount } => {
                self.on_accept(transaction_hash, block_number, log_index, from_address, value, principal, subaccount, Some(erc20_contract_address));
            }
            E::InvalidDeposit { event_source, .. } => {
                self.label("invalid deposit");
                match self.find_dep(&event_source.transaction_hash, &event_source.log_index) {
                    Some(i) if !self.chain.deposits[i].valid && !self.facts.deps[i].invalid => self.facts.deps[i].invalid = true,
                    _ => self.fail(&["C16", "C26", "C02"], format!("deposit {event_source:?} recorded as invalid")),
                }
            }
            E::MintedNative { event_source, mint_block_index } => self.on_minted(&event_source, &mint_block_index, None),
            E::MintedErc20 { event_source, mint_block_index, erc20_token_symbol, erc20_contract_address } => self.on_minted(&event_source, &mint_block_index, Some((erc20_token_symbol, erc20_contract_address))),
            E::QuarantinedDeposit { event_source } => match self.find_dep(&event_source.transaction_hash, &event_source.log_index) {
                Some(i) if self.facts.deps[i].accepted && !self.facts.deps[i].recorded && !self.facts.deps[i].quarantined => {
                    self.facts.deps[i].quarantined = true;
                    self.label("quarantined deposit");
                    let d = &self.chain.deposits[i];
                    if !(d.token == [0; 20] && d.value < self.set.dfee) {
                        self.facts.quarantines[0] += 1;
                        let injected: u32 = self.facts.injected.iter().filter(|(k, _)| **k & MINT != 0).map(|(_, v)| *v).sum();
                        if self.facts.quarantines[0] > injected {
                            let text = format!("deposit of {} quarantined although no minting call was interrupted", d.value);
                            self.fail(&["C02", "C01"], text);
                        }
                    }
                }
                _ => self.fail(&["C26", "C02"], format!("unexpected quarantine of {event_source:?}")),
            },
            E::SkippedBlock { block_number } => {
                let b = to_u64(&block_number);
                self.label("skipped block");
                if !self.facts.too_large.contains(&b) {
                    self.fail(&["C02"], format!("block {b} skipped although its logs were never reported too large"));
                }
                if !self.facts.skipped.insert(b) {
                    self.fail(&["C02", "C26"], format!("block {b} skipped twice"));
                }
            }
            E::AddedErc20Token { chain_id, address, erc20_token_symbol, erc20_ledger_id } => {
                self.label("token added");
                let Some((_, a)) = self.facts.adding.clone() else {
                    self.fail(&["C11", "C27"], format!("token {address} added without a request of the ledger suite manager"));
                    return;
                };
                let (Some(x), Some(y)) = (addr(&address), addr(&a.address)) else { return self.fail(&["C27", "C17"], format!("token added with address {address}")) };
                if x != y || a.chain_id != chain_id || a.erc20_token_symbol != erc20_token_symbol || a.erc20_ledger_id != erc20_ledger_id {
                    self.fail(&["C27", "C26"], format!("token requested as {a:?} added as {address}, {erc20_token_symbol}, {erc20_ledger_id}, chain {chain_id}"));
                }
                let at = self.msg;
                self.facts.tokens.push(Token { contract: x, ledger: erc20_ledger_id, symbol: erc20_token_symbol, at });
            }
            E::AcceptedNativeWithdrawalRequest { withdrawal_amount, destination, ledger_burn_index, from, from_subaccount, created_at } => {
                let id = to_u64(&ledger_burn_index);
                let ok = self.facts.wds.get(&id).map_or(false, |w| {
                    w.native && !w.recorded && w.amount == withdrawal_amount.0 && eip55(&w.dest) == destination && w.from == from && from_subaccount.is_none() && created_at.map_or(true, |t| t <= self.now && t >= self.ctxs[&w.ctx].start)
                });
                if !ok {
                    let w = format!("{:?}", self.facts.wds.get(&id));
                    self.fail(&["C04", "C26"], format!("request {id} recorded as {withdrawal_amount} from {from} to {destination} at {created_at:?}, burned was {w}"));
                }
                if let Some(w) = self.facts.wds.get_mut(&id) {
                    w.recorded = true;
                }
                self.label("native withdrawal accepted");
            }
            E::AcceptedErc20WithdrawalRequest { max_transaction_fee, withdrawal_amount, erc20_contract_address, destination, native_ledger_burn_index, erc20_ledger_id, erc20_ledger_burn_index, from, from_subaccount, created_at } => {
                let id = to_u64(&native_ledger_burn_index);
                let ok = self.facts.wds.get(&id).map_or(false, |w| {
                    !w.native
                        && !w.recorded
                        && w.amount == withdrawal_amount.0
                        && w.gas_fee == max_transaction_fee.0
                        && eip55(&w.contract) == erc20_contract_address
                        && eip55(&w.dest) == destination
                        && w.ledger == erc20_ledger_id
                        && w.burn20 == to_u64(&erc20_ledger_burn_index)
                        && w.from == from
                        && from_subaccount.is_none()
                        && created_at <= self.now
                        && created_at >= self.ctxs[&w.ctx].start
                });
                if !ok {
                    let w = format!("{:?}", self.facts.wds.get(&id));
                    self.fail(&["C05", "C26"], format!("request {id} recorded as {withdrawal_amount} of {erc20_contract_address} from {from} to {destination}, fee {max_transaction_fee}, burns were {w}"));
                }
                if let Some(w) = self.facts.wds.get_mut(&id) {
                    w.recorded = true;
                }
                self.label("token withdrawal accepted");
            }
            E::CreatedTransaction { withdrawal_id, transaction } => self.on_version(to_u64(&withdrawal_id), transaction, false),
            E::ReplacedTransaction { withdrawal_id, transaction } => self.on_version(to_u64(&withdrawal_id), transaction, true),
            E::SignedTransaction { withdrawal_id, raw_transaction } => self.on_signed(to_u64(&withdrawal_id), &raw_transaction),
            E::FinalizedTransaction { withdrawal_id, transaction_receipt } => self.on_finalized(to_u64(&withdrawal_id), transaction_receipt),
            E::ReimbursedNativeWithdrawal { reimbursed_in_block, withdrawal_id, reimbursed_amount, transaction_hash } => {
                let id = to_u64(&withdrawal_id);
                self.on_reimbursed(id, (native_ledger(), id), &reimbursed_in_block, &reimbursed_amount, transaction_hash);
            }
            E::ReimbursedErc20Withdrawal { withdrawal_id, burn_in_block, reimbursed_in_block, ledger_id, reimbursed_amount, transaction_hash } => {
                self.on_reimbursed(to_u64(&withdrawal_id), (ledger_id, to_u64(&burn_in_block)), &reimbursed_in_block, &reimbursed_amount, transaction_hash);
            }
            E::FailedErc20WithdrawalRequest { withdrawal_id, reimbursed_amount, to, to_subaccount } => {
                let id = to_u64(&withdrawal_id);
                self.label("token burn failed");
                let burn = id.checked_sub(self.ledgers[&native_ledger()].first).and_then(|i| self.ledgers[&native_ledger()].entries.get(i as usize)).cloned();
                let Some(b) = burn.filter(|b| b.kind == Kind::Burn) else {
                    return self.fail(&["C07", "C26"], format!("failed withdrawal {id} without a burned gas fee"));
                };
                let c = self.ctxs.get(&b.ctx).cloned();
                let last = c.and_then(|c| c.lcalls.iter().rev().find(|l| l.ledger != native_ledger()).cloned());
                let min = if b.amount > self.set.tf { &b.amount - &self.set.tf } else { n(0) };
                let full = last.as_ref().map_or(false, |l| l.faulted);
                let f = FailedBurn { min: if full { b.amount.clone() } else { min }, max: b.amount.clone(), to: b.from.owner, recorded: Some(reimbursed_amount.0.clone()), quarantined: false, lost: false };
                if last.map_or(true, |l| l.result.is_ok()) || to != b.from.owner || to_subaccount.is_some() || reimbursed_amount.0 < f.min || reimbursed_amount.0 > f.max {
                    self.fail(&["C07", "C26", "C10"], format!("failed withdrawal {id} of {}: {reimbursed_amount} is to be reimbursed to {to}, due is {} to {}", b.from.owner, f.min, f.max));
                }
                if self.facts.failed.insert(id, f).is_some() {
                    self.fail(&["C07", "C26"], format!("failed withdrawal {id} recorded twice"));
                }
            }
            E::QuarantinedReimbursement { index } => {
                self.label("quarantined reimbursement");
                let key = match index {
                    api::ReimbursementIndex::Native { ledger_burn_index } => (native_ledger(), to_u64(&ledger_burn_index)),
                    api::ReimbursementIndex::Erc20 { ledger_id, erc20_ledger_burn_index, .. } => (ledger_id, to_u64(&erc20_ledger_burn_index)),
                };
                self.facts.quarantines[1] += 1;
                let injected: u32 = self.facts.injected.iter().filter(|(k, _)| **k & REIMBURSE != 0).map(|(_, v)| *v).sum();
                if self.facts.quarantines[1] > injected {
                    self.fail(&["C07"], format!("reimbursement {key:?} quarantined although no reimbursing call was interrupted"));
                }
                if key.0 == native_ledger() {
                    if let Some(f) = self.facts.failed.get_mut(&key.1) {
                        f.quarantined = true;
                        return;
                    }
                }
                match self.facts.wds.values_mut().find(|w| w.reimbursement_key() == key) {
                    Some(w) => w.quarantined = true,
                    None => self.fail(&["C07", "C26"], format!("unknown reimbursement {key:?} quarantined")),
                }
            }
        }
    }

    fn find_dep(&self, hash: &str, index: &Nat) -> Option<usize> {
        let h = hex32(hash)?;
        let i = to_u64(index);
        self.chain.deposits.iter().position(|d| d.hash == h && d.index == i)
    }

    #[allow(clippy::too_many_arguments)]
    fn on_accept(&mut self, hash: String, block: Nat, index: Nat, from: String, value: Nat, owner: Principal, sub: Option<[u8; 32]>, token: Option<String>) {
        let Some(i) = self.find_dep(&hash, &index) else {
            self.fail(&["C01", "C13", "C26"], format!("deposit {hash}/{index} accepted that was never made"));
            return;
        };
        let d = self.chain.deposits[i].clone();
        let want = (to_u64(&block), from.clone(), value.0.clone(), owner, sub.unwrap_or([0; 32]), token.clone());
        let have = (d.block, eip55(&d.from), d.value.clone(), d.owner, d.sub.unwrap_or([0; 32]), (d.token != [0; 20]).then(|| eip55(&d.token)));
        if want != have || !d.valid {
            self.fail(&["C01", "C16", "C26"], format!("deposit {have:?} (valid: {}) accepted as {want:?}", d.valid));
        }
        if d.token != [0; 20] && self.token_by_contract(&d.token).is_none() {
            self.fail(&["C27", "C01"], format!("deposit of unregistered token {} accepted", hex::encode(d.token)));
        }
        if Some(d.block) > self.deepest_ever() {
            self.fail(&["C23"], format!("deposit in block {} accepted with the head at {} (margin {})", d.block, self.chain.head, self.margin()));
        }
        if self.facts.deps[i].accepted {
            self.fail(&["C01", "C26"], format!("deposit {hash}/{index} accepted twice"));
        }
        self.facts.deps[i].accepted = true;
        self.label(if d.token == [0; 20] { "native deposit" } else { "token deposit" });
        if d.token == [0; 20] {
            self.facts.credited += &d.value;
        } else {
            *self.facts.credited20.entry(d.token).or_default() += &d.value;
        }
    }

    fn on_minted(&mut self, s: &api::EventSource, block: &Nat, token: Option<(String, String)>) {
        let Some(i) = self.find_dep(&s.transaction_hash, &s.log_index) else {
            return self.fail(&["C01", "C26"], format!("unknown deposit {s:?} recorded as minted"));
        };
        let d = self.chain.deposits[i].clone();
        let ok = match (&token, d.token == [0; 20]) {
            (None, true) => true,
            (Some((sym, c)), false) => eip55(&d.token) == *c && self.token_by_contract(&d.token).map_or(false, |t| t.symbol == *sym),
            _ => false,
        };
        let dep = &mut self.facts.deps[i];
        let bad = !ok || dep.minted.map(|m| m.1) != Some(to_u64(block)) || dep.recorded || dep.quarantined;
        dep.recorded = true;
        let dep = dep.clone();
        if bad {
            self.fail(&["C26", "C01"], format!("deposit {s:?} recorded as minted in block {block} ({token:?}), really {dep:?}"));
        }
    }

    fn on_version(&mut self, id: u64, t: api::UnsignedTransaction, replaced: bool) {
        let v = Ver {
            nonce: to_u64(&t.nonce),
            prio: t.max_priority_fee_per_gas.0.clone(),
            max: t.max_fee_per_gas.0.clone(),
            gas: t.gas_limit.0.clone(),
            to: addr(&t.destination).unwrap_or_default(),
            value: t.value.0.clone(),
            data: t.data.to_vec(),
        };
        if t.chain_id.0 != n(self.chain.id as u128) {
            self.fail(&["C08", "C23"], format!("transaction for chain {}", t.chain_id));
        }
        if !t.access_list.is_empty() {
            self.fail(&["C08", "C04"], "transaction with an access list".to_string());
        }
        let Some(w) = self.facts.wds.get(&id).cloned() else {
            return self.fail(&["C06", "C04", "C05"], format!("transaction for unknown withdrawal {id}"));
        };
        let tag = if w.native { "C04" } else { "C05" };
        if !w.recorded || w.finalized.is_some() {
            self.fail(&[tag, "C06"], format!("transaction for withdrawal {id} which is {}", if w.recorded { "finalized" } else { "not recorded" }));
        }
        if v.prio > v.max {
            self.fail(&["C06", "C15", "C08"], format!("withdrawal {id}: priority fee {} above the maximum fee {}", v.prio, v.max));
        }
        let cost = &v.gas * &v.max;
        if w.native {
            if v.gas != n(GAS as u128) || v.to != w.dest || !v.data.is_empty() {
                self.fail(&["C04"], format!("withdrawal {id} to {} as {v:?}", eip55(&w.dest)));
            }
            if &v.value + &cost != w.amount {
                self.fail(&["C04", "C03"], format!("withdrawal {id}: value {} plus maximum gas cost {cost} is not the burned {}", v.value, w.amount));
            }
        } else {
            if v.gas != n(GAS20 as u128) || v.to != w.contract || v.value != n(0) || decode_transfer(&v.data) != Some((w.dest, w.amount.clone())) {
                self.fail(&["C05", "C27"], format!("withdrawal {id} of {} of {} to {} as {v:?}", w.amount, eip55(&w.contract), eip55(&w.dest)));
            }
            if cost > w.gas_fee {
                self.fail(&["C05", "C03", "C15"], format!("withdrawal {id}: maximum gas cost {cost} above the fee {} burned for it", w.gas_fee));
            }
        }
        if replaced {
            self.label("transaction replaced");
            self.facts.replaced += 1;
            // A version that could not be signed never left the minter; the next one starts from the last signed one.
            let dropped = !w.current_signed && w.versions.len() > 1;
            if dropped {
                self.label("unsigned version dropped");
                self.facts.wds.get_mut(&id).unwrap().versions.pop();
            }
            let Some(old) = w.versions.iter().rev().nth(dropped as usize).cloned() else {
                return self.fail(&["C06"], format!("withdrawal {id}: replacement without a transaction"));
            };
            if (old.nonce, &old.gas, old.to, &old.data) != (v.nonce, &v.gas, v.to, &v.data) {
                self.fail(&["C06"], format!("withdrawal {id}: {old:?} replaced by {v:?}"));
            }
            if v.max < old.max || &v.prio * 10u8 < &old.prio * 11u8 {
                self.fail(&["C06", "C15"], format!("withdrawal {id}: prices {}/{} replaced by {}/{}", old.prio, old.max, v.prio, v.max));
            }
            if self.facts.latest.map_or(true, |l| v.nonce < l) {
                let l = self.facts.latest;
                self.fail(&["C06"], format!("withdrawal {id}: nonce {} replaced although the network reported {l:?} as used", v.nonce));
            }
            if !w.current_signed && !dropped {
                self.fail(&["C06", "C12"], format!("withdrawal {id}: replaced before it was signed"));
            }
        } else {
            self.label("transaction created");
            if !w.versions.is_empty() {
                self.fail(&["C06", tag], format!("withdrawal {id}: second transaction created"));
            }
            if v.nonce != self.facts.next_nonce || self.facts.nonces.contains_key(&v.nonce) {
                let next = self.facts.next_nonce;
                self.fail(&["C06"], format!("withdrawal {id}: nonce {} used, {next} is next", v.nonce));
            }
            self.facts.nonces.insert(v.nonce, id);
            self.facts.next_nonce = v.nonce + 1;
            // Prices come from an estimate that was fresh when the task began.
            let start = self.ctxs.get(&self.cur).map(|c| (c.start, c.start_msg));
            if let Some((at, msg)) = start {
                let before = self.facts.estimates.iter().rposition(|e| e.msg <= msg && e.sure).unwrap_or(0);
                let ok = self.facts.estimates[before..].iter().any(|e| (e.msg > msg || e.at + 30 * NS >= at) && e.prio == v.prio && (if w.native { v.max == e.max } else { &v.max * 2u8 >= &e.max + &e.prio && v.max == &w.gas_fee / GAS20 }));
                if !ok {
                    let known: Vec<String> = self.facts.estimates[before..].iter().map(|e| format!("{}/{} at {}", e.prio, e.max, e.at)).collect();
                    self.fail(&["C15"], format!("withdrawal {id}: prices {}/{} used at {}, estimates {known:?}, task started {at}", v.prio, v.max, self.now));
                }
            }
        }
        let w = self.facts.wds.get_mut(&id).unwrap();
        w.versions.push(v);
        w.current_signed = false;
    }

    fn on_signed(&mut self, id: u64, raw: &str) {
        self.label("transaction signed");
        let bytes = raw.strip_prefix("0x").and_then(|s| hex::decode(s).ok()).unwrap_or_default();
        let tx = match decode_tx(&bytes) {
            Ok(t) => t,
            Err(e) => return self.fail(&["C08"], format!("withdrawal {id}: invalid transaction signed: {e}")),
        };
        if tx.signer != Some(self.chain.minter) || tx.chain != n(self.chain.id as u128) {
            self.fail(&["C08"], format!("withdrawal {id}: signed by {:?} for chain {}", tx.signer.map(hex::encode), tx.chain));
        }
        let Some(w) = self.facts.wds.get_mut(&id) else {
            return self.fail(&["C08", "C06"], format!("transaction signed for unknown withdrawal {id}"));
        };
        let v = Ver { nonce: tx.nonce, prio: tx.prio, max: tx.max, gas: tx.gas, to: tx.to, value: tx.value, data: tx.data };
        let last = w.versions.last().cloned();
        w.signed.push(tx.hash);
        let twice = std::mem::replace(&mut w.current_signed, true);
        if last.as_ref() != Some(&v) || twice {
            self.fail(&["C08", "C06", "C26"], format!("withdrawal {id}: {last:?} signed as {v:?}"));
        }
        if self.facts.signed.insert(tx.hash, id).is_some() {
            self.fail(&["C06", "C26"], format!("transaction {} signed twice", hexs(&tx.hash)));
        }
    }

    fn on_finalized(&mut self, id: u64, r: api::TransactionReceipt) {
        self.facts.finalized_ev += 1;
        let Some(w) = self.facts.wds.get(&id).cloned() else {
            return self.fail(&["C12", "C26"], format!("unknown withdrawal {id} finalized"));
        };
        let nonce = w.versions.first().map(|v| v.nonce);
        let Some(m) = self.chain.mined.iter().find(|m| Some(m.tx.nonce) == nonce).cloned() else {
            return self.fail(&["C12", "C03", "C26"], format!("withdrawal {id} finalized but none of its transactions was mined"));
        };
        let ok = hex32(&r.transaction_hash) == Some(m.tx.hash)
            && to_u64(&r.block_number) == m.block
            && hex32(&r.block_hash) == Some(self.chain.block_hash(m.block))
            && (r.status == api::TransactionStatus::Success) == m.success
            && r.gas_used.0 == m.gas_used
            && r.effective_gas_price.0 == m.price
            && m.block <= self.chain.finalized()
            && w.finalized.is_none()
            && w.signed.contains(&m.tx.hash);
        if !ok {
            self.fail(&["C12", "C26", "C03", "C13"], format!("withdrawal {id} finalized with {r:?}, really {:?} in block {} (finalized {}), success {}, gas {} at {}", hexs(&m.tx.hash), m.block, self.chain.finalized(), m.success, m.gas_used, m.price));
        }
        self.label(if m.success { "withdrawal succeeded" } else { "withdrawal failed" });
        let fee = &m.gas_used * &m.price;
        self.facts.spent += &fee;
        if m.success {
            self.facts.spent += &m.tx.value;
            if !w.native {
                *self.facts.spent20.entry(w.contract).or_default() += &w.amount;
            }
        }
        self.facts.wds.get_mut(&id).unwrap().finalized = Some((m.tx.hash, m.success, fee));
    }

    fn on_reimbursed(&mut self, id: u64, key: (Principal, u64), block: &Nat, amount: &Nat, hash: Option<String>) {
        let hash = hash.map(|h| hex32(&h).unwrap_or_default());
        let ok = match self.facts.paid.get_mut(&key) {
            Some(p) => {
                let ok = !p.recorded && p.index == to_u64(block) && p.amount == amount.0 && p.hash == hash;
                p.recorded = true;
                ok
            }
            None => false,
        };
        if !ok {
            let p = format!("{:?}", self.facts.paid.get(&key));
            self.fail(&["C07", "C26"], format!("reimbursement of withdrawal {id} recorded as {amount} in block {block} for {hash:?}, really {p}"));
        }
        if let Some(w) = self.facts.wds.get_mut(&id) {
            if w.reimbursement_key() == key {
                w.reimbursed = Some((to_u64(block), amount.0.clone()));
            }
        }
    }

    // ---- reported information ----

    pub fn read_info(&mut self) -> Option<api::MinterInfo> {
        let b = self.query(Method::get_minter_info, Encode!().unwrap())?;
        if let Some((k, v)) = &self.facts.read_info {
            if *k == b {
                return Some(v.clone());
            }
        }
        let v = Decode!(&b, api::MinterInfo).ok()?;
        self.facts.read_info = Some((b, v.clone()));
        Some(v)
    }

    fn poll_info(&mut self) {
        let Some(i) = self.read_info() else {
            return self.fail(&["C09", "C25"], "get_minter_info fails".into());
        };
        let s = self.set.clone();
        let opt = |v: &N| if *v == n(0) { None } else { Some(Nat(v.clone())) };
        let tag = [api::CandidBlockTag::Latest, api::CandidBlockTag::Safe, api::CandidBlockTag::Finalized][s.tag as usize].clone();
        macro_rules! same {
            ($tags:expr, $what:literal, $a:expr, $b:expr) => {{
                let (a, b) = (&$a, &$b);
                if a != b {
                    self.fail($tags, format!("{} reported as {a:?} instead of {b:?}", $what));
                }
            }};
        }
        same!(&["C25", "C09"], "minimum withdrawal", i.minimum_withdrawal_amount, Some(Nat(s.min.clone())));
        same!(&["C25", "C09"], "deposit fee", i.deposit_native_fee, opt(&s.dfee));
        same!(&["C25", "C09"], "withdrawal fee", i.withdrawal_native_fee, opt(&s.wfee));
        same!(&["C25", "C09"], "block height", i.block_height, Some(tag));
        same!(&["C25", "C09"], "helper address", i.helper_smart_contract_address, Some(eip55(&s.helper)));
        same!(&["C25", "C09"], "native ledger", i.native_twin_token_ledger_id, Some(native_ledger()));
        same!(&["C25", "C09"], "ledger suite manager", i.ledger_suite_manager_id, Some(lsm()));
        if let Some(a) = &i.minter_address {
            same!(&["C08"], "minter address", *a, eip55(&self.chain.minter));
        }
        let key = |t: &api::Erc20Token| (t.erc20_contract_address.clone(), t.ledger_canister_id, t.erc20_token_symbol.clone());
        let mut have: Vec<_> = i.supported_erc20_tokens.iter().flatten().map(key).collect();
        have.sort();
        let mut want: Vec<_> = self.facts.tokens.iter().map(|t| (eip55(&t.contract), t.ledger, t.symbol.clone())).collect();
        want.sort();
        same!(&["C27", "C09"], "supported tokens", have, want);
        let native = if self.facts.credited >= self.facts.spent { Some(Nat(&self.facts.credited - &self.facts.spent)) } else { None };
        same!(&["C03"], "native balance", i.native_balance, native);
        let mut have: Vec<_> = i.erc20_balances.iter().flatten().map(|b| (b.erc20_contract_address.clone(), b.balance.0.clone())).collect();
        have.sort();
        let zero = n(0);
        let mut want: Vec<_> = self
            .facts
            .tokens
            .iter()
            .map(|t| (eip55(&t.contract), self.facts.credited20.get(&t.contract).unwrap_or(&zero).clone() - self.facts.spent20.get(&t.contract).unwrap_or(&zero)))
            .collect();
        want.sort();
        same!(&["C03"], "token balances", have, want);
        // Fee estimate: the last one obtained.
        if let Some(g) = &i.last_gas_fee_estimate {
            let from = self.facts.estimates.iter().rposition(|e| e.sure).unwrap_or(0);
            let ok = self.facts.estimates[from..].iter().any(|e| e.max == g.max_fee_per_gas.0 && e.prio == g.max_priority_fee_per_gas.0 && e.at == g.timestamp);
            if !ok {
                let last = format!("{:?}", self.facts.estimates.last());
                self.fail(&["C15"], format!("fee estimate reported as {g:?}, last obtained {last}"));
            }
        } else if self.facts.estimates.iter().any(|e| e.sure) && !self.facts.upgraded {
            self.fail(&["C15"], "the fee estimate obtained is not reported".into());
        }
        // Scanning progress.
        let old = self.last_scraped();
        let new = i.last_scraped_block_number.as_ref().map(to_u64).unwrap_or(0);
        if self.facts.info.is_some() && new < old {
            self.fail(&["C02", "C09"], format!("last scraped block goes back from {old} to {new}"));
        }
        if self.facts.info.is_some() && new > old {
            self.scraped(old, new);
        }
        self.facts.info = Some(i);
    }

    /// Deposits in blocks the operator left out.
    fn exempt_skips(&mut self) {
        for i in 0..self.chain.deposits.len() {
            let b = self.chain.deposits[i].block;
            if !self.facts.deps[i].accepted && self.facts.skips.iter().any(|(from, to)| b > *from && b <= *to) {
                self.facts.deps[i].exempt = Some("skipped by the operator");
            }
        }
    }

    fn scraped(&mut self, old: u64, new: u64) {
        self.label("blocks scraped");
        self.exempt_skips();
        if Some(new) > self.deepest_ever() && self.facts.skipped_to != Some(new) {
            self.fail(&["C23", "C02"], format!("blocks up to {new} counted as scraped with the head at {}", self.chain.head));
        }
        let start = self.ctxs.get(&self.cur).map(|c| c.start_msg).unwrap_or(0);
        for i in 0..self.chain.deposits.len() {
            let d = self.chain.deposits[i].clone();
            if d.block <= old || d.block > new {
                continue;
            }
            let supported = d.token == [0; 20] || self.token_by_contract(&d.token).map_or(false, |t| t.at < start);
            let dep = &mut self.facts.deps[i];
            if !d.valid {
                if supported && d.helper == self.set.helper && !dep.invalid && dep.exempt.is_none() && !self.facts.skipped.contains(&d.block) {
                    self.fail(&["C16", "C26"], format!("malformed deposit log {} of block {} not recorded as invalid although blocks {} to {new} are scraped", d.index, d.block, old + 1));
                }
                continue;
            }
            dep.covered = true;
            if dep.accepted || dep.exempt.is_some() {
                continue;
            }
            if !supported {
                dep.exempt = Some("token not supported when its block was scraped");
            } else if d.helper != self.set.helper {
                dep.exempt = Some("made through another helper contract");
            } else if self.facts.skipped.contains(&d.block) {
                dep.exempt = Some("in a skipped block");
            } else {
                self.fail(&["C02"], format!("deposit of {} in block {} (token {}) not accepted although blocks {} to {new} are scraped", d.value, d.block, hex::encode(d.token), old + 1));
            }
        }
    }

    // ---- requests ----

    fn finish_contexts(&mut self) {
        let ids: Vec<u64> = self.ctxs.values().filter(|c| !c.seen_done && c.done()).map(|c| c.id).collect();
        for id in ids {
            let c = self.ctxs.get_mut(&id).unwrap();
            c.seen_done = true;
            let c = c.clone();
            let fees = if self.set.dfee == n(0) { 0 } else { c.native_mints };
            if c.fee_mints > fees || (c.fee_mints < fees && !c.trapped && !c.faulted) {
                self.fail(&["C01"], format!("{} deposit fees minted for {} native deposits", c.fee_mints, c.native_mints));
            }
            if let (Some(Method::minter_address), Some(Response::Reply(b))) = (c.method, &c.response) {
                let (have, want) = (Decode!(b, String).ok(), eip55(&self.chain.minter));
                self.label("minter address asked");
                if have.as_ref() != Some(&want) {
                    self.fail(&["C08"], format!("the minter's address is {want}, but {have:?} is published"));
                }
            }
            if let Some(r) = c.req.clone() {
                self.finish_request(&c, &r);
            } else if c.method.is_none() && !c.trapped {
                continue;
            }
        }
        if self.ctxs.len() > 3000 {
            let keep: BTreeSet<u64> = self.facts.wds.values().map(|w| w.ctx).collect();
            self.ctxs.retain(|id, c| !c.seen_done || c.req.is_some() || keep.contains(id));
        }
    }

    fn finish_request(&mut self, c: &Cx, r: &Req) {
        let native = r.ledger.is_none();
        let tag = if native { "C04" } else { "C05" };
        let what = format!("request {} of {} for {} to {:?} on {:?}", c.id, c.caller, r.amount, r.dest.map(hex::encode), r.ledger);
        if c.entry_trap {
            if r.must_trap.is_none() && !r.may_trap {
                let why = self.skip.values().last().cloned();
                self.fail(&["C11", "C10"], format!("{what} traps: {why:?}"));
            }
            return;
        }
        if let Some(why) = r.must_trap {
            return self.fail(&["C11"], format!("{what} is let in although {why}"));
        }
        if c.trapped {
            // A callback trapped.
            if !c.injected {
                let why = self.skip.values().last().cloned();
                self.fail(&["C10", tag], format!("{what} traps midway: {why:?}"));
            }
            for w in self.facts.wds.values_mut().filter(|w| w.ctx == c.id && !w.recorded) {
                w.lost = true;
            }
            self.label("request interrupted");
            return;
        }
        let Some(Response::Reply(bytes)) = &c.response else {
            return self.fail(&["C10", tag], format!("{what} ends without an answer: {:?}", c.response));
        };
        let s = &r.set;
        let entries: Vec<(Principal, Entry)> = self.ledgers.iter().flat_map(|(l, x)| x.entries.iter().filter(|e| e.ctx == c.id).map(|e| (*l, e.clone()))).collect();
        let fee_in: Vec<&Entry> = entries.iter().filter(|(_, e)| e.kind == Kind::Transfer && e.to == fees_account()).map(|x| &x.1).collect();
        let refunds: Vec<&Entry> = entries.iter().filter(|(_, e)| e.kind == Kind::Transfer && e.from == fees_account()).map(|x| &x.1).collect();
        let burns: Vec<&Entry> = entries.iter().filter(|(l, e)| e.kind == Kind::Burn && *l == native_ledger()).map(|x| &x.1).collect();
        let burns20: Vec<&Entry> = entries.iter().filter(|(l, e)| e.kind == Kind::Burn && *l != native_ledger()).map(|x| &x.1).collect();
        let sum = |v: &[&Entry]| v.iter().fold(n(0), |a, e| a + &e.amount + &e.fee);
        let paid_fee = sum(&fee_in);
        let got = refunds.iter().fold(n(0), |a, e| a + &e.amount);
        let received = fee_in.iter().fold(n(0), |a, e| a + &e.amount);
        let refund_faulted = c.lcalls.iter().any(|l| l.faulted && l.from == Some(fees_account()));
        let calls: Vec<&LCall> = c.lcalls.iter().filter(|l| l.from != Some(fees_account())).collect();
        let charged = s.wfee > n(0);
        let token = r.token.clone();
        macro_rules! bad {
            ($tags:expr, $($a:tt)*) => {{ let t = format!($($a)*); self.fail($tags, format!("{what}: {t}; entries {entries:?}")) }};
        }
        // The answer of the ledger that ended the request.
        let last = calls.last().map(|l| (l.result.clone(), l.ledger, l.amount.clone()));
        let matches_ledger = |name: &str, value: Option<&Nat>| match &last {
            Some((Err(e), _, _)) => match name {
                "unavailable" => e == "reject" || e.starts_with("TemporarilyUnavailable") || e.starts_with("GenericError"),
                _ => e.starts_with(name) && value.map_or(true, |v| e.contains(&format!("{:?}", v))),
            },
            _ => false,
        };
        let refused_ok = |w: &mut World, extra: &N| {
            // Service fee given back, at the price of two ledger fees.
            let limit = &s.tf * 2u8 + extra;
            let lost = if &paid_fee > &got { &paid_fee - &got } else { n(0) };
            if lost > limit && !refund_faulted {
                w.fail(&["C10"], format!("{what} is refused but costs {lost} of service fee (ledger fee {}); entries {entries:?}", s.tf));
            }
            if got > paid_fee {
                w.fail(&["C10", "C03"], format!("{what} is refused and {got} refunded for {paid_fee}"));
            }
            // Nobody else's service fee is spent on it.
            if got > received {
                w.fail(&["C10", "C03"], format!("{what} is refused, its service fee brought {received}, and {got} is refunded; entries {entries:?}"));
            }
        };
        if native {
            let Ok(resp) = Decode!(bytes, Result<api::RetrieveNativeRequest, api::WithdrawalError>) else {
                return bad!(&["C10", "C04"], "undecodable answer {}", hex::encode(bytes));
            };
            let low = r.amount < s.min || (charged && r.amount < &s.wfee + &s.tf);
            match &resp {
                Ok(x) => {
                    self.label("native withdrawal ok");
                    let total = &paid_fee + sum(&burns);
                    let fee_ok = if charged { fee_in.len() == 1 && paid_fee == s.wfee } else { fee_in.is_empty() };
                    if total != r.amount || burns.len() != 1 || !burns20.is_empty() || !refunds.is_empty() || !fee_ok {
                        bad!(&["C04", "C10"], "debited {total}");
                    }
                    if r.dest.is_none() || r.amount < s.min {
                        bad!(&["C04", "C17"], "accepted although {}", if r.dest.is_none() { "the recipient is invalid" } else { "it is below the minimum" });
                    }
                    let id = to_u64(&x.block_index);
                    if burns.first().map(|b| b.index) != Some(id) || !self.facts.wds.get(&id).map_or(false, |w| w.recorded && w.ctx == c.id) {
                        bad!(&["C04", "C12"], "answered with withdrawal {id}");
                    }
                }
                Err(e) => {
                    self.label("native withdrawal refused");
                    self.label(match e {
                        api::WithdrawalError::AmountTooLow { .. } => "refused: amount too low",
                        api::WithdrawalError::InsufficientFunds { .. } => "refused: funds",
                        api::WithdrawalError::InsufficientAllowance { .. } => "refused: allowance",
                        api::WithdrawalError::TemporarilyUnavailable(_) => "refused: unavailable",
                        api::WithdrawalError::InvalidDestination(_) => "refused: recipient",
                    });
                    if !burns.is_empty() || !burns20.is_empty() {
                        bad!(&["C10", "C04"], "burned although refused with {e:?}");
                    }
                    let ok = match e {
                        api::WithdrawalError::InvalidDestination(_) => r.dest.is_none() && c.lcalls.is_empty(),
                        api::WithdrawalError::AmountTooLow { min_withdrawal_amount } => {
                            let least = s.min.clone().max(if charged { &s.wfee + &s.tf } else { n(0) });
                            low && c.lcalls.is_empty() && min_withdrawal_amount.0 >= s.min && min_withdrawal_amount.0 <= least && r.amount < min_withdrawal_amount.0
                        }
                        api::WithdrawalError::InsufficientFunds { balance } => matches_ledger("InsufficientFunds", Some(balance)),
                        api::WithdrawalError::InsufficientAllowance { allowance } => matches_ledger("InsufficientAllowance", Some(allowance)),
                        api::WithdrawalError::TemporarilyUnavailable(_) => matches_ledger("unavailable", None),
                    };
                    if !ok {
                        bad!(&["C10"], "refused with {e:?}, ledger calls {:?}", c.lcalls);
                    }
                    refused_ok(self, &n(0));
                }
            }
            if (r.dest.is_none() || r.amount < s.min) && !c.lcalls.is_empty() {
                bad!(&["C10", "C04"], "invalid, but the ledger was called");
            }
            return;
        }
        let Ok(resp) = Decode!(bytes, Result<api::RetrieveErc20Request, api::WithdrawErc20Error>) else {
            return bad!(&["C10", "C05"], "undecodable answer {}", hex::encode(bytes));
        };
        use api::WithdrawErc20Error as X;
        match &resp {
            Ok(x) => {
                self.label("token withdrawal ok");
                let fee_ok = if charged { fee_in.len() == 1 && paid_fee == s.wfee } else { fee_in.is_empty() };
                let (a, b) = (to_u64(&x.native_block_index), to_u64(&x.erc20_block_index));
                if burns.len() != 1 || burns20.len() != 1 || sum(&burns20) != r.amount || !refunds.is_empty() || !fee_ok || burns[0].index != a || burns20[0].index != b {
                    bad!(&["C05", "C10"], "answered with {a}, {b}");
                }
                if !self.facts.wds.get(&a).map_or(false, |w| w.recorded && w.ctx == c.id) {
                    bad!(&["C05", "C12"], "answered with unrecorded withdrawal {a}");
                }
                if r.dest.is_none() || token.is_none() {
                    bad!(&["C05", "C17"], "accepted although invalid");
                }
            }
            Err(e) => {
                self.label("token withdrawal refused");
                self.label(match e {
                    X::TokenNotSupported { .. } => "refused: token",
                    X::NativeLedgerError { .. } => "refused: gas fee",
                    X::NativeFeeTransferError { .. } => "refused: service fee",
                    X::Erc20LedgerError { .. } => "refused: token burn",
                    X::TemporarilyUnavailable(_) => "refused: unavailable",
                    _ => "refused: recipient",
                });
                if !burns20.is_empty() {
                    bad!(&["C10", "C05"], "tokens burned although refused with {e:?}");
                }
                let kept = matches!(e, X::Erc20LedgerError { .. });
                if burns.len() != kept as usize {
                    bad!(&["C10", "C05"], "gas fee burned although refused with {e:?}");
                }
                let led = |err: &api::LedgerError| match err {
                    api::LedgerError::InsufficientFunds { balance, failed_burn_amount, ledger_id, .. } => matches_ledger("InsufficientFunds", Some(balance)) && last.as_ref().map_or(false, |l| l.2 == failed_burn_amount.0 && l.1 == *ledger_id),
                    api::LedgerError::InsufficientAllowance { allowance, failed_burn_amount, ledger_id, .. } => matches_ledger("InsufficientAllowance", Some(allowance)) && last.as_ref().map_or(false, |l| l.2 == failed_burn_amount.0 && l.1 == *ledger_id),
                    api::LedgerError::AmountTooLow { minimum_burn_amount, failed_burn_amount, ledger_id, .. } => matches_ledger("BadBurn", Some(minimum_burn_amount)) && last.as_ref().map_or(false, |l| l.2 == failed_burn_amount.0 && l.1 == *ledger_id),
                    api::LedgerError::TemporarilyUnavailable(_) => matches_ledger("unavailable", None),
                };
                let on_native = last.as_ref().map_or(false, |l| l.1 == native_ledger());
                let ok = match e {
                    X::InvalidDestination(_) => r.dest.is_none() && c.lcalls.is_empty(),
                    X::TokenNotSupported { supported_tokens } => {
                        let mut have: Vec<_> = supported_tokens.iter().map(|t| (t.erc20_contract_address.clone(), t.ledger_canister_id)).collect();
                        have.sort();
                        let mut want: Vec<_> = self.facts.tokens.iter().map(|t| (eip55(&t.contract), t.ledger)).collect();
                        want.sort();
                        token.is_none() && c.lcalls.is_empty() && have == want
                    }
                    X::TemporarilyUnavailable(_) => c.lcalls.is_empty() && (c.faulted || r.refreshing),
                    X::NativeFeeTransferError { error } => {
                        charged
                            && on_native
                            && calls.len() == 1
                            && match error {
                                api::FeeError::InsufficientFunds { balance, failed_transfer_amount, .. } => matches_ledger("InsufficientFunds", Some(balance)) && last.as_ref().map_or(false, |l| l.2 == failed_transfer_amount.0),
                                api::FeeError::InsufficientAllowance { allowance, failed_transfer_amount, .. } => matches_ledger("InsufficientAllowance", Some(allowance)) && last.as_ref().map_or(false, |l| l.2 == failed_transfer_amount.0),
                                api::FeeError::AmountTooLow { .. } => false,
                                api::FeeError::TemporarilyUnavailable(_) => matches_ledger("unavailable", None),
                            }
                    }
                    X::NativeLedgerError { error } => on_native && led(error),
                    X::Erc20LedgerError { native_block_index, error } => {
                        let id = to_u64(native_block_index);
                        let known = self.facts.failed.contains_key(&id) || burns.first().map_or(true, |b| b.amount <= s.tf);
                        !on_native && led(error) && burns.first().map(|b| b.index) == Some(id) && known
                    }
                };
                if !ok {
                    bad!(&["C10"], "refused with {e:?}, ledger calls {:?}", c.lcalls);
                }
                refused_ok(self, &n(0));
            }
        }
        if (r.dest.is_none() || token.is_none()) && !c.lcalls.is_empty() {
            bad!(&["C10", "C05"], "invalid, but the ledger was called");
        }
    }

    // ---- backing ----

    fn backing(&mut self) {
        let mut need = self.ledgers[&native_ledger()].supply.clone();
        let mut need20: BTreeMap<Addr, N> = self.facts.tokens.iter().map(|t| (t.contract, self.ledgers.get(&t.ledger).map(|l| l.supply.clone()).unwrap_or_default())).collect();
        for (i, d) in self.facts.deps.iter().enumerate() {
            if d.accepted && d.minted.is_none() && !d.quarantined {
                let x = &self.chain.deposits[i];
                if x.token == [0; 20] {
                    need += &x.value;
                } else {
                    *need20.entry(x.token).or_default() += &x.value;
                }
            }
        }
        let mut mined: BTreeMap<u64, (bool, N)> = BTreeMap::new();
        for m in &self.chain.mined {
            mined.insert(m.tx.nonce, (m.success, m.tx.value.clone()));
        }
        for w in self.facts.wds.values().filter(|w| !w.lost) {
            let m = w.versions.first().and_then(|v| mined.get(&v.nonce));
            match m {
                None => {
                    need += if w.native { &w.amount } else { &w.gas_fee };
                    if !w.native {
                        *need20.entry(w.contract).or_default() += &w.amount;
                    }
                }
                Some((false, value)) if !self.facts.paid.contains_key(&w.reimbursement_key()) => {
                    if w.native {
                        need += value;
                    } else {
                        *need20.entry(w.contract).or_default() += &w.amount;
                    }
                }
                _ => {}
            }
        }
        for (id, f) in &self.facts.failed {
            if !self.facts.paid.contains_key(&(native_ledger(), *id)) {
                need += f.recorded.as_ref().unwrap_or(&f.min);
            }
        }
        if need > self.chain.native {
            let text = format!("native obligations of {need} exceed the {} on chain", self.chain.native);
            self.fail(&["C03"], text);
        }
        for (t, v) in need20 {
            let have = self.chain.tokens.get(&t).cloned().unwrap_or_default();
            if v > have {
                self.fail(&["C03"], format!("obligations of {v} in token {} exceed the {have} on chain", hex::encode(t)));
            }
        }
    }

    // ---- statuses ----

    pub fn expected_status(&self, id: u64) -> api::RetrieveWithdrawalStatus {
        use api::{RetrieveWithdrawalStatus as S, Transaction, TxFinalizedStatus as F};
        let Some(w) = self.facts.wds.get(&id).filter(|w| w.recorded) else { return S::NotFound };
        if let Some((hash, success, fee)) = &w.finalized {
            let h = hexs(hash);
            return S::TxFinalized(if *success {
                F::Success { transaction_hash: h, effective_transaction_fee: Some(Nat(fee.clone())) }
            } else if let Some((block, amount)) = &w.reimbursed {
                F::Reimbursed { transaction_hash: h, reimbursed_amount: Nat(amount.clone()), reimbursed_in_block: Nat::from(*block) }
            } else {
                F::PendingReimbursement(Transaction { transaction_hash: h })
            });
        }
        if w.versions.is_empty() {
            S::Pending
        } else if w.current_signed {
            S::TxSent(Transaction { transaction_hash: hexs(w.signed.last().unwrap()) })
        } else {
            S::TxCreated
        }
    }
    pub fn status(&mut self, id: u64) -> Option<api::RetrieveWithdrawalStatus> {
        let b = self.query(Method::retrieve_witdrawal_status, Encode!(&id).unwrap())?;
        Decode!(&b, api::RetrieveWithdrawalStatus).ok()
    }
    pub fn search(&mut self, p: &api::WithdrawalSearchParameter) -> Option<Vec<api::WithdrawalDetail>> {
        let b = self.query(Method::withdrawal_status, Encode!(p).unwrap())?;
        Decode!(&b, Vec<api::WithdrawalDetail>).ok()
    }
    pub fn expected_detail(&self, w: &Wd) -> Option<api::WithdrawalDetail> {
        use api::{RetrieveWithdrawalStatus as S, WithdrawalStatus as D};
        let status = match self.expected_status(w.id) {
            S::NotFound => return None,
            S::Pending => D::Pending,
            S::TxCreated => D::TxCreated,
            S::TxSent(t) => D::TxSent(t),
            S::TxFinalized(f) => D::TxFinalized(f),
        };
        let max = if !w.native {
            Some(Nat(w.gas_fee.clone()))
        } else if let Some((h, _, _)) = &w.finalized {
            self.chain.mined.iter().find(|m| m.tx.hash == *h).map(|m| Nat(&w.amount - &m.tx.value))
        } else {
            w.versions.last().map(|v| Nat(&w.amount - &v.value))
        };
        Some(api::WithdrawalDetail {
            withdrawal_id: w.id,
            recipient_address: eip55(&w.dest),
            from: w.from,
            from_subaccount: None,
            token_symbol: if w.native { self.facts.init.as_ref().unwrap().native_symbol.clone() } else { self.token_by_ledger(&w.ledger).map(|t| t.symbol.clone()).unwrap_or_default() },
            withdrawal_amount: Nat(w.amount.clone()),
            max_transaction_fee: max,
            status,
        })
    }

    /// Compares the status of every withdrawal with what happened.
    pub fn check_statuses(&mut self) {
        let ids: Vec<u64> = self.facts.wds.keys().copied().collect();
        for id in ids {
            let want = self.expected_status(id);
            match self.status(id) {
                Some(s) if s == want => {}
                s => self.fail(&["C12"], format!("status of withdrawal {id} is {s:?} instead of {want:?}")),
            }
        }
    }
    pub fn check_search(&mut self, p: api::WithdrawalSearchParameter) {
        use api::WithdrawalSearchParameter as P;
        let mut want: Vec<api::WithdrawalDetail> = self
            .facts
            .wds
            .values()
            .filter(|w| match &p {
                P::ByWithdrawalId(id) => w.id == *id,
                P::ByRecipient(a) => addr(a) == Some(w.dest),
                P::BySenderAccount(a) => *a == acct(w.from),
            })
            .filter_map(|w| self.expected_detail(w))
            .collect();
        want.sort_by_key(|d| d.withdrawal_id);
        let Some(mut have) = self.search(&p) else {
            return self.fail(&["C12"], format!("searching {p:?} fails"));
        };
        have.sort_by_key(|d| d.withdrawal_id);
        if have != want {
            self.fail(&["C12"], format!("searching {p:?} returns {have:?} instead of {want:?}"));
        }
    }

    /// What must hold when all faults have stopped and enough time has passed.
    /// A background task that did nothing while everything settled no longer runs.
    fn idle(&self, class: u8) -> bool {
        !self.sent_by.contains_key(&class)
    }
    pub fn settled(&mut self, prio: &N) {
        self.check_statuses();
        self.exempt_skips();
        let base = n(self.chain.base as u128);
        for i in 0..self.facts.deps.len() {
            let d = self.chain.deposits[i].clone();
            let s = self.facts.deps[i].clone();
            if !d.valid || s.exempt.is_some() {
                continue;
            }
            if s.quarantined {
                continue;
            }
            if d.token == [0; 20] && d.value < self.set.dfee {
                continue;
            }
            if d.token != [0; 20] && self.token_by_contract(&d.token).is_none() {
                continue;
            }
            if !s.accepted || s.minted.is_none() {
                if !s.accepted && d.helper != self.set.helper {
                    continue;
                }
                let idle = self.idle(if s.accepted { MINT } else { SCRAPE });
                self.fail(if idle { &["C02", "C11"] } else { &["C02"] }, format!("deposit of {} (token {}) in block {} is not credited although failures have stopped: {s:?}", d.value, hex::encode(d.token), d.block));
            }
            if s.minted.is_some() && !s.recorded {
                self.fail(&["C26", "C01"], format!("the mint of deposit {}/{} is not recorded", hexs(&d.hash), d.index));
            }
        }
        let wds: Vec<Wd> = self.facts.wds.values().cloned().collect();
        for w in wds {
            if w.lost {
                continue;
            }
            let tag = if w.native { "C04" } else { "C05" };
            if !w.recorded {
                self.fail(&[tag, "C26"], format!("withdrawal {} burned {} but is not recorded", w.id, w.amount));
                continue;
            }
            let affordable = if w.native { w.amount >= (&base * 2u8 + prio) * GAS } else { &w.gas_fee / GAS20 >= &base + prio };
            if w.finalized.is_none() && (affordable || !w.versions.is_empty()) {
                if w.versions.is_empty() {
                    let tags = [tag, if self.idle(RETRIEVE) { "C11" } else { tag }];
                    self.fail(&tags, format!("withdrawal {} of {} is not paid although failures have stopped", w.id, w.amount));
                } else if self.unblocked(&w, &base, prio) {
                    let nonce = w.versions[0].nonce;
                    let mined = self.chain.mined.iter().find(|m| m.tx.nonce == nonce).map(|m| m.success);
                    let tags: &[&'static str] = match mined {
                        Some(false) => &["C07", "C12", tag],
                        Some(true) => &["C12", "C06", tag],
                        None => &["C06", tag],
                    };
                    self.fail(tags, format!("withdrawal {} of {} (nonce {nonce}, mined: {mined:?}) is not finalized although failures have stopped", w.id, w.amount));
                }
            }
            if w.finalized.as_ref().map_or(false, |f| !f.1) {
                let key = w.reimbursement_key();
                let due = if w.native { self.chain.mined.iter().find(|m| m.tx.hash == w.finalized.as_ref().unwrap().0).map(|m| m.tx.value.clone()).unwrap_or_default() } else { w.amount.clone() };
                match self.facts.paid.get(&key) {
                    None if !w.quarantined && due > n(0) => self.fail(&["C07", if self.idle(REIMBURSE) { "C11" } else { "C07" }], format!("withdrawal {} failed and is not reimbursed although failures have stopped", w.id)),
                    Some(p) if !p.recorded && !w.quarantined => self.fail(&["C07", "C26"], format!("the reimbursement of withdrawal {} is not recorded", w.id)),
                    _ => {}
                }
            }
        }
        let failed: Vec<(u64, FailedBurn)> = self.facts.failed.iter().map(|(k, v)| (*k, v.clone())).collect();
        for (id, f) in failed {
            match self.facts.paid.get(&(native_ledger(), id)) {
                None if !f.quarantined && f.min > n(0) => self.fail(&["C07", "C10", if self.idle(REIMBURSE) { "C11" } else { "C07" }], format!("the gas fee of failed withdrawal {id} is not reimbursed although failures have stopped")),
                Some(p) if !p.recorded && !f.quarantined => self.fail(&["C07", "C26"], format!("the reimbursement of the gas fee of {id} is not recorded")),
                _ => {}
            }
        }
        // Every transaction mined belongs to exactly one withdrawal.
        let mined: Vec<(u64, [u8; 32])> = self.chain.mined.iter().map(|m| (m.tx.nonce, m.tx.hash)).collect();
        for (nonce, hash) in mined {
            if !self.facts.nonces.contains_key(&nonce) || !self.facts.signed.contains_key(&hash) {
                self.fail(&["C04", "C05", "C26"], format!("transaction {} (nonce {nonce}) was mined but is not recorded", hexs(&hash)));
            }
        }
    }

    /// Whether this withdrawal and all with lower nonces can be mined at these prices.
    /// Prices have been the same for a while: nothing that can be paid at them is left waiting.
    pub fn paid_at_prices(&mut self) {
        let base = n(self.chain.base as u128);
        let prio = n(self.chain.prio as u128 * 5 / 4 + 3).max(self.set.min_prio.clone());
        let waiting: Vec<Wd> = self.facts.wds.values().filter(|x| x.recorded && !x.lost && x.finalized.is_none()).cloned().collect();
        if let Some(x) = waiting.iter().find(|x| x.versions.first().map(|v| v.nonce) == Some(self.chain.nonce)) {
            let v = x.versions.last().unwrap();
            let p = (&v.prio + (&v.prio + 9u8) / 10u8).max(prio.clone());
            let max = (&base + &p).max(v.max.clone());
            let ok = if x.native { &max * GAS <= x.amount } else { &max * GAS20 <= x.gas_fee };
            if v.max >= base || ok {
                self.fail(&[if x.native { "C04" } else { "C05" }], format!("withdrawal {} (nonce {}, burned {}) still waits with {v:?} although prices have been at base fee {base} for minutes", x.id, v.nonce, if x.native { &x.amount } else { &x.gas_fee }));
            }
        }
        // Each pass takes five requests; there were eight passes or more.
        if waiting.len() <= 25 {
            for x in waiting.iter().filter(|x| x.versions.is_empty() && x.native && x.amount >= (&base * 2u8 + &prio) * GAS) {
                self.fail(&["C04"], format!("withdrawal {} of {} is not executed although prices have been at base fee {base} for minutes", x.id, x.amount));
            }
        }
    }

    fn unblocked(&self, w: &Wd, base: &N, prio: &N) -> bool {
        let nonce = w.versions[0].nonce;
        self.facts.wds.values().filter(|x| x.versions.first().map_or(false, |v| v.nonce <= nonce) && x.finalized.is_none()).all(|x| {
            let v = x.versions.last().unwrap();
            if v.max >= base + prio && v.prio >= *prio {
                return true;
            }
            if v.max >= *base {
                return true;
            }
            // It needs a dearer version: is that within the amount?
            let p = (&v.prio + (&v.prio + 9u8) / 10u8).max(prio.clone());
            let max = (base + &p).max(v.max.clone());
            if x.native {
                &max * GAS <= x.amount
            } else {
                &max * GAS20 <= x.gas_fee
            }
        })
    }
}
