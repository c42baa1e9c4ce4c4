//! C22: the log endpoint returns a bounded, ordered, unaltered window of entries.
use evm_minter::logs::{Log, LogEntry, Priority, Sort, DEBUG, INFO, TRACE_HTTP};
use ic_canister_log::log;
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use serde_json::{json, Value};
use std::str::FromStr;

type Row = (u64, u8, String, u32, String, u64);

fn row() -> BoxedStrategy<Row> {
    let msg = prop_oneof![
        2 => Just(String::new()),
        4 => "[ -~]{0,40}",
        2 => "\\PC{0,30}",
        2 => prop::collection::vec(any::<char>(), 0..20).prop_map(|c| c.into_iter().collect::<String>()),
        1 => (0usize..400).prop_map(|n| "x".repeat(n)),
        1 => (0usize..60).prop_map(|n| "\u{1}\"\\".repeat(n)),
    ];
    (prop_oneof![3 => 0u64..5, 1 => any::<u64>()], 0u8..3, "[a-z/.]{0,12}", any::<u32>(), msg, any::<u64>()).boxed()
}

fn prio(n: u8) -> Priority {
    match n {
        0 => Priority::Info,
        1 => Priority::TraceHttp,
        _ => Priority::Debug,
    }
}
const NAMES: [&str; 3] = ["Info", "TraceHttp", "Debug"];

fn build(rows: &[Row]) -> Log {
    Log {
        entries: rows
            .iter()
            .map(|(t, p, f, l, m, c)| LogEntry { timestamp: *t, priority: prio(*p), file: f.clone(), line: *l, message: m.clone(), counter: *c })
            .collect(),
    }
}
fn as_rows(log: &Log) -> Vec<Row> {
    log.entries
        .iter()
        .map(|e| (e.timestamp, match e.priority { Priority::Info => 0, Priority::TraceHttp => 1, Priority::Debug => 2 }, e.file.clone(), e.line, e.message.clone(), e.counter))
        .collect()
}
fn want_json(rows: &[Row]) -> Value {
    json!({"entries": rows.iter().map(|(t, p, f, l, m, c)| json!({"timestamp": t, "priority": NAMES[*p as usize], "file": f, "line": l, "message": m, "counter": c})).collect::<Vec<_>>()})
}

/// Mostly a few entries, sometimes many short ones.
fn rows(few: usize, many: usize) -> BoxedStrategy<Vec<Row>> {
    let short = (0u64..6, 0u8..3, any::<u32>(), "[a-z]{0,3}").prop_map(|(t, p, l, m)| (t, p, "f".to_string(), l, m, l as u64));
    prop_oneof![
        30 => prop::collection::vec(row(), 0..few),
        1 => prop::collection::vec(short, few..many),
    ]
    .boxed()
}

pub fn run(c: &mut Ctx) {
    c.check(
        "size limit",
        "0 to 25 entries with arbitrary text (sometimes up to 500 short ones), limits at, just below and between the sizes of all prefixes (from the size of an empty log); non-trivial = a proper non-empty prefix is returned",
        30_000,
        || (rows(25, 500), any::<u16>(), -3i64..4, any::<bool>()),
        |(rows, pick, off, exact)| {
            let log = build(rows);
            let empty = serde_json::to_string(&want_json(&[])).unwrap().len();
            let mut sizes = vec![empty];
            for (i, r) in rows.iter().enumerate() {
                let one = serde_json::to_string(&want_json(std::slice::from_ref(r))).unwrap().len() - empty;
                sizes.push(sizes[i] + one + usize::from(i > 0));
            }
            let n = *pick as usize % sizes.len();
            let total = *sizes.last().unwrap();
            let limit = if *exact { (sizes[n] as i64 + off) as usize } else { *pick as usize % (total + 20) }.max(sizes[0]);
            let got = log.serialize_logs(limit);
            ensure!(got.len() <= limit, "{} bytes returned for a limit of {limit}", got.len());
            let v: Value = serde_json::from_str(&got).map_err(|e| format!("not JSON for limit {limit}: {e}"))?;
            let keep = (0..sizes.len()).rev().find(|i| sizes[*i] <= limit).unwrap();
            ensure_eq!(v, want_json(&rows[..keep]), "entries kept for limit {limit} of {total} bytes ({keep} fit)");
            let back: Log = serde_json::from_str(&got).map_err(|e| e.to_string())?;
            ensure_eq!(as_rows(&back), rows[..keep].to_vec(), "entries read back");
            let all = log.serialize_logs(usize::MAX);
            ensure_eq!(serde_json::from_str::<Value>(&all).unwrap(), want_json(rows), "unlimited");
            ensure_eq!(as_rows(&log), rows.clone(), "the log itself after serialising");
            Ok(Info::nontrivial(keep > 0 && keep < rows.len()).label_if(keep == rows.len(), "all fit").label_if(sizes.contains(&limit), "exact fit"))
        },
    );
    c.check(
        "sorting",
        "0 to 40 (sometimes up to 400) entries with many equal timestamps, sorted both ways; non-trivial = two equal timestamps with different entries and an inversion",
        30_000,
        || (rows(40, 400), any::<bool>(), any::<bool>()),
        |(rows, desc, direct)| {
            let mut log = build(rows);
            match (*desc, *direct) {
                (true, true) => log.sort_desc(),
                (false, true) => log.sort_asc(),
                (true, false) => log.sort_logs(Sort::from_str("desc")?),
                (false, false) => log.sort_logs(Sort::from_str("asc")?),
            }
            // insertion-stable reference
            let mut want: Vec<Row> = vec![];
            for r in rows {
                let at = want.iter().position(|w| if *desc { w.0 < r.0 } else { w.0 > r.0 }).unwrap_or(want.len());
                want.insert(at, r.clone());
            }
            ensure_eq!(as_rows(&log), want, "sorted (descending: {desc})");
            let ties = rows.iter().enumerate().any(|(i, a)| rows[..i].iter().any(|b| b.0 == a.0 && b != a));
            Ok(Info::nontrivial(ties && want != *rows))
        },
    );
    c.check(
        "buffers",
        "up to 60 (sometimes 1100) messages written to the three priorities at increasing times; each priority keeps its newest 1000 in order; non-trivial = all three used",
        600,
        || (prop::collection::vec((0u8..3, "\\PC{0,12}"), 0..60), prop_oneof![9 => Just(0usize), 1 => 990usize..1100], 0u8..3),
        |(msgs, flood, fp)| {
            let mut env = ic0::sim::Env { time: 5, ..Default::default() };
            ic0::sim::install(&mut env);
            // the buffers are per thread: run each case in a fresh one
            let mut all: Vec<(u8, String)> = (0..*flood).map(|i| (*fp, format!("flood {i}"))).collect();
            all.extend(msgs.iter().cloned());
            let out = std::thread::scope(|s| {
                s.spawn(|| {
                    let mut env = ic0::sim::Env::default();
                    ic0::sim::install(&mut env);
                    for (i, (p, m)) in all.iter().enumerate() {
                        ic0::sim::with(|e| e.time = 100 + i as u64);
                        match p {
                            0 => log!(INFO, "{}", m),
                            1 => log!(TRACE_HTTP, "{}", m),
                            _ => log!(DEBUG, "{}", m),
                        }
                    }
                    let mut each = vec![];
                    for p in ["info", "trace_http", "debug"] {
                        let mut l = Log::default();
                        l.push_logs(Priority::from_str(p).unwrap());
                        each.push(as_rows(&l));
                    }
                    let mut l = Log::default();
                    l.push_all();
                    each.push(as_rows(&l));
                    each
                })
                .join()
                .map_err(|_| "panicked".to_string())
            })?;
            for p in 0..3u8 {
                let mut want: Vec<(u64, u8, String)> = all.iter().enumerate().filter(|(_, x)| x.0 == p).map(|(i, x)| (100 + i as u64, p, x.1.clone())).collect();
                let n = want.len();
                if n > 1000 {
                    want.drain(..n - 1000);
                }
                let got: Vec<_> = out[p as usize].iter().map(|r| (r.0, r.1, r.4.clone())).collect();
                ensure_eq!(got, want, "entries of priority {}", NAMES[p as usize]);
            }
            let mut joined = out[0].clone();
            joined.extend(out[1].clone());
            joined.extend(out[2].clone());
            let mut a = out[3].clone();
            a.sort();
            joined.sort();
            ensure_eq!(a, joined, "push_all");
            Ok(Info::nontrivial((0..3).all(|p| all.iter().any(|x| x.0 == p))).label_if(*flood > 0, "overflowing buffer"))
        },
    );
    c.check(
        "names",
        "arbitrary and near-miss names of priorities and orders in any letter case; non-trivial = a recognised name",
        20_000,
        || (prop_oneof![4 => prop_oneof![Just("info"), Just("trace_http"), Just("debug"), Just("asc"), Just("desc")].prop_map(String::from), 1 => "[a-z_]{0,10}"], any::<u16>()),
        |(s, mask)| {
            let t: String = s.chars().enumerate().map(|(i, ch)| if mask >> (i % 16) & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect();
            let p = Priority::from_str(&t).ok().map(|p| format!("{p:?}"));
            let want = match s.as_str() { "info" => Some("Info"), "trace_http" => Some("TraceHttp"), "debug" => Some("Debug"), _ => None };
            ensure_eq!(p.as_deref(), want, "priority {t}");
            let o = Sort::from_str(&t).ok().map(|p| format!("{p:?}"));
            let want_o = match s.as_str() { "asc" => Some("Ascending"), "desc" => Some("Descending"), _ => None };
            ensure_eq!(o.as_deref(), want_o, "order {t}");
            Ok(Info::nontrivial(want.is_some() || want_o.is_some()))
        },
    );
}
