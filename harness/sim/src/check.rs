//! The checks: which histories each property is tried on, and when a history says something about it.
use crate::case::{case, Case, Profile};
use crate::run::{run_case, run_without_upgrades, Report};
use crate::world::{install_hook, *};
use pbt::{Ctx, Info, Verdict};

/// One label out of each group must have been seen for a history to count.
type Rule = &'static [&'static [&'static str]];

pub fn judge(id: &str, r: &Report, rule: Rule) -> Verdict {
    if let Some(t) = r.of(id) {
        return Err(t);
    }
    let mut i = Info::nontrivial(rule.iter().all(|g| g.iter().any(|l| r.has(l))));
    i.labels = r.labels.keys().map(|l| l.to_string()).collect();
    Ok(i)
}

/// What goes wrong in the harness itself says nothing about the code.
pub fn sound(f: impl FnOnce() -> Verdict) -> Verdict {
    match pbt::guarded(f) {
        Ok(v) => v,
        Err(p) => {
            eprintln!("history abandoned: {p}");
            Ok(Info::trivial().label("abandoned"))
        }
    }
}

pub fn histories(ctx: &mut Ctx, id: &'static str, name: &str, cases: u32, p: Profile, rule: Rule) {
    let text = format!(
        "a random configuration and {}-{} operations run against the whole canister, then everything settles; counts when the history contains {}",
        p.min_ops,
        p.max_ops - 1,
        rule.iter().map(|g| g.join(" or ")).collect::<Vec<_>>().join(", and "),
    );
    ctx.check_with(name, &text, cases, if p.add_token > 5 || p.intrude > 0 { 6 } else { 15 }, 300, || case(&p), |c: &Case| sound(|| judge(id, &run_case(c, id), rule)));
}

/// A violation of anything that disappears when the upgrades are left out is one of C09.
pub fn with_upgrades(ctx: &mut Ctx, name: &str, cases: u32, p: Profile, rule: Rule) {
    let text = format!("as above with many upgrades; a violation of any property counts if the same history without upgrades has none. Counts when the history contains {}", rule.iter().map(|g| g.join(" or ")).collect::<Vec<_>>().join(", and "));
    ctx.check_with(name, &text, cases, 15, 200, || case(&p), |c: &Case| {
        sound(|| {
            let r = run_case(c, "*");
            let v = judge("C09", &r, rule)?;
            let Some((t, text)) = r.violations.first() else { return Ok(v) };
            if run_without_upgrades(c, "*").violations.is_empty() {
                return Err(format!("only with its upgrades, this history breaks {t:?}: {text}"));
            }
            judge("C09", &run_case(c, "C09"), rule)
        })
    });
}

const NONE: Profile = Profile {
    deposit: 0,
    bad_deposit: 0,
    mine: 0,
    fee: 0,
    approve: 0,
    withdraw: 0,
    withdraw20: 0,
    advance: 4,
    step: 8,
    drain: 3,
    pass: 6,
    surge: 0,
    stuck: 0,
    race: 0,
    upgrade: 0,
    add_token: 0,
    fault: 0,
    trap: 0,
    scrape: 0,
    intrude: 0,
    query: 0,
    flood: 0,
    crowd: (97, 104),
    twice: 0,
    align: 0,
    raw: 0,
    back: false,
    min_ops: 4,
    max_ops: 40,
    fail_txs: true,
    fees: true,
    faults: ALL,
    kinds: &[0, 1, 2, 3, 4, 5, 6],
};
const ALL: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];

/// The histories of a property, and how many.
pub fn profile(id: &str) -> (Profile, u32, Rule) {
    let d = Profile::default();
    match id {
        "C01" => (
            Profile { deposit: 14, bad_deposit: 2, mine: 6, fault: 5, trap: 3, upgrade: 2, scrape: 2, add_token: 1, withdraw: 1, faults: &[T_MINT, T_MINT20, T_MINT, T_MINT20, T_MINTFEE, T_LOGS, T_BLOCK], ..NONE },
            2400,
            &[&["native mint", "token mint"], &["fault", "injected trap", "upgrade", "invalid deposit"]],
        ),
        "C02" => (
            Profile { deposit: 14, bad_deposit: 4, mine: 6, fault: 5, trap: 2, upgrade: 2, scrape: 3, add_token: 1, withdraw: 1, faults: &[T_BLOCK, T_LOGS, T_LOGS, T_LOGS, T_MINT, T_MINT20, T_MINTFEE], ..NONE },
            2400,
            &[&["native deposit", "token deposit"], &["fault", "logs too large", "invalid deposit", "upgrade"]],
        ),
        "C03" => (Profile { min_ops: 10, max_ops: 50, ..d }, 2000, &[&["native mint", "token mint"], &["withdrawal succeeded", "withdrawal failed"]]),
        "C04" => (
            Profile { deposit: 2, withdraw: 12, mine: 4, fee: 2, surge: 3, fault: 4, trap: 1, upgrade: 1, approve: 1, stuck: 4, race: 3, ..NONE },
            2400,
            &[&["native withdrawal accepted"], &["withdrawal succeeded", "withdrawal failed"]],
        ),
        "C05" => (
            Profile { deposit: 2, withdraw20: 14, mine: 4, fee: 2, surge: 3, fault: 4, trap: 1, upgrade: 1, approve: 1, stuck: 4, race: 3, align: 2, ..NONE },
            2400,
            &[&["token withdrawal accepted"], &["withdrawal succeeded", "withdrawal failed"]],
        ),
        "C06" => (
            Profile { withdraw: 10, withdraw20: 8, mine: 4, fee: 1, surge: 8, fault: 4, trap: 1, upgrade: 1, pass: 10, faults: &[T_COUNT, T_COUNT, T_SEND, T_SEND, T_SIGN, T_FEES, T_RECEIPT], stuck: 10, race: 6, ..NONE },
            2200,
            &[&["transaction replaced", "fault"], &["transaction created"]],
        ),
        "C07" => (
            Profile { withdraw: 10, withdraw20: 12, mine: 4, approve: 2, fault: 8, trap: 3, upgrade: 2, faults: &[T_BURN20, T_BURN20, T_MINT, T_MINT20, T_MINT, T_RECEIPT, T_BURN, T_BURNONLY], stuck: 2, align: 4, ..NONE },
            2200,
            &[&["reimbursement of a failed transaction", "reimbursement of a gas fee"]],
        ),
        "C08" => (Profile { withdraw: 10, withdraw20: 8, surge: 4, query: 3, fault: 2, upgrade: 1, max_ops: 30, faults: &[T_SIGN, T_KEY, T_SEND], stuck: 4, ..NONE }, 700, &[&["transaction sent"]]),
        "C09" => (Profile { upgrade: 8, min_ops: 8, max_ops: 50, ..d }, 1800, &[&["upgrade"], &["transaction created", "native mint", "token mint"]]),
        "C10" => (
            Profile { deposit: 1, withdraw: 12, withdraw20: 14, approve: 6, fault: 8, trap: 2, upgrade: 1, fee: 1, faults: &[T_BURN, T_BURN20, T_BURNONLY, T_BURN20, T_FEES, T_MINT, T_REFUND, T_BURNONLY], align: 2, ..NONE },
            2400,
            &[&["native withdrawal refused", "token withdrawal refused"], &["service fee refunded", "reimbursement of a gas fee", "fault"]],
        ),
        "C11" => (
            Profile { deposit: 1, withdraw: 6, withdraw20: 6, intrude: 6, twice: 6, fault: 5, trap: 5, upgrade: 1, scrape: 2, add_token: 1, max_ops: 20, ..NONE },
            700,
            &[&["intrusion", "second request of a caller", "injected trap"]],
        ),
        "C12" => (Profile { withdraw: 10, withdraw20: 8, query: 10, surge: 4, fault: 4, trap: 1, upgrade: 2, mine: 3, stuck: 4, race: 3, align: 2, ..NONE }, 2000, &[&["native withdrawal accepted", "token withdrawal accepted"]]),
        "C13" => (Profile { deposit: 8, withdraw: 8, withdraw20: 6, mine: 4, fault: 14, pass: 14, min_ops: 12, max_ops: 40, faults: &[T_BLOCK, T_LOGS, T_LOGS, T_LOGS, T_RECEIPT, T_RECEIPT, T_RECEIPT, T_COUNT, T_SEND, T_SEND, T_FEES], kinds: &[0, 1, 2, 2, 2, 3, 3, 3, 3, 4, 5, 6], stuck: 3, ..NONE }, 700, &[&["one provider fails", "one provider lies"]]),
        "C15" => (Profile { withdraw: 8, withdraw20: 8, fee: 6, surge: 6, query: 8, fault: 2, upgrade: 1, max_ops: 30, faults: &[T_FEES], stuck: 3, ..NONE }, 700, &[&["price quoted", "transaction created"]]),
        "C16" => (Profile { deposit: 8, bad_deposit: 10, mine: 6, max_ops: 25, ..NONE }, 400, &[&["invalid deposit"]]),
        "C17" => (Profile { withdraw: 12, withdraw20: 10, query: 2, max_ops: 25, ..NONE }, 400, &[&["native withdrawal ok", "token withdrawal ok"]]),
        "C19" => (Profile { upgrade: 5, max_ops: 35, ..d }, 400, &[&["upgrade"]]),
        "C21" => (Profile { deposit: 12, mine: 8, fault: 3, max_ops: 25, faults: &[T_LOGS], ..NONE }, 400, &[&["logs too large", "fault"]]),
        "C23" => (Profile { deposit: 12, mine: 8, fault: 2, upgrade: 2, scrape: 3, max_ops: 30, faults: &[T_BLOCK, T_LOGS], ..NONE }, 700, &[&["native deposit", "token deposit"]]),
        "C24" => (Profile { deposit: 6, withdraw: 8, withdraw20: 8, approve: 2, fault: 3, max_ops: 30, faults: &[T_BURN20, T_MINT], stuck: 1, align: 2, ..NONE }, 600, &[&["native withdrawal accepted", "token withdrawal accepted", "reimbursement of a failed transaction", "reimbursement of a gas fee"]]),
        "C25" => (Profile { deposit: 4, withdraw: 5, withdraw20: 4, upgrade: 8, query: 3, max_ops: 25, ..NONE }, 500, &[&["upgrade"]]),
        "C26" => (Profile { query: 8, min_ops: 8, max_ops: 50, ..d }, 1800, &[&["native mint", "token mint"], &["transaction created", "token burn failed"]]),
        "C27" => (Profile { add_token: 14, deposit: 6, withdraw20: 8, intrude: 1, upgrade: 2, query: 1, mine: 3, max_ops: 30, ..NONE }, 900, &[&["token refused", "token added"]]),
        "C28" => (Profile { scrape: 16, deposit: 3, mine: 8, fault: 4, trap: 1, upgrade: 1, advance: 10, faults: &[T_BLOCK, T_BLOCK, T_LOGS], ..NONE }, 2000, &[&["scraping granted", "scraping too early"]]),
        "C30" => (Profile { deposit: 3, withdraw: 3, upgrade: 4, max_ops: 16, ..NONE }, 500, &[&["announced"], &["announcement refused", "upgrade"]]),
        "C31" => (Profile { raw: 16, query: 8, min_ops: 10, max_ops: 45, ..d }, 700, &[&["call of the published interface"], &["native mint", "token mint"], &["transaction created"]]),
        _ => (d, 800, &[&["quiesced"]]),
    }
}

const ASSUME: &str = "the simulated ledgers, EVM chain, EVM RPC canister and management canister answer as the real ones do; messages of the canister are atomic and trap with rollback, as on the IC";

/// A check that needs no histories.
pub fn unit_only(id: &'static str, unit: fn(&mut Ctx)) -> ! {
    let mut ctx = Ctx::new(id);
    unit(&mut ctx);
    ctx.finish()
}
/// The check when its unit-level part does not build against this tree (it uses internal interfaces).
pub fn without_part(id: &'static str) -> ! {
    main(id, |ctx| ctx.assume("the unit-level part of this check does not build against this tree and was left out"))
}
/// The check of a property decided on whole histories.
pub fn main(id: &'static str, unit: fn(&mut Ctx)) -> ! {
    main_with(id, unit, |_| {})
}
pub fn main_with(id: &'static str, unit: fn(&mut Ctx), more: fn(&mut Ctx)) -> ! {
    let mut ctx = Ctx::new(id);
    unit(&mut ctx);
    install_hook();
    ctx.assume(ASSUME);
    more(&mut ctx);
    let (p, n, rule) = profile(id);
    if id == "C09" {
        with_upgrades(&mut ctx, "histories", n, p, rule);
    } else {
        histories(&mut ctx, id, "histories", n, p, rule);
    }
    if matches!(id, "C04" | "C05" | "C06" | "C07" | "C12") {
        let p = Profile { flood: 10, crowd: (20, 99), withdraw: 2, withdraw20: 2, pass: 8, fee: 4, surge: 6, stuck: 3, step: 2, upgrade: 1, fault: 2, max_ops: 10, min_ops: 3, faults: &[T_FEES, T_SIGN, T_SEND, T_COUNT], ..NONE };
        histories(&mut ctx, id, "crowds", 32, p, &[&["crowd"], &["transaction created"]]);
    }
    if id == "C04" {
        let p = Profile { flood: 10, crowd: (4, 10), withdraw: 4, surge: 10, drain: 6, mine: 1, deposit: 0, stuck: 1, step: 2, pass: 2, advance: 1, max_ops: 9, min_ops: 3, ..NONE };
        histories(&mut ctx, id, "queues", 300, p, &[&["crowd"], &["settled at unchanged prices"]]);
    }
    if id == "C01" {
        let p = Profile { back: true, deposit: 10, bad_deposit: 1, mine: 6, fault: 3, trap: 8, upgrade: 9, scrape: 3, withdraw: 1, max_ops: 25, min_ops: 6, faults: &[T_MINT, T_MINT20, T_LOGS], ..NONE };
        histories(&mut ctx, id, "rescans", 400, p, &[&["scanning moved back"], &["native mint", "token mint"]]);
    }
    if id == "C11" {
        let p = Profile { flood: 8, withdraw: 3, withdraw20: 3, twice: 1, intrude: 1, fault: 1, trap: 1, max_ops: 8, min_ops: 2, ..NONE };
        histories(&mut ctx, id, "crowds", 48, p, &[&["100 requests in flight"]]);
    }
    ctx.finish()
}
