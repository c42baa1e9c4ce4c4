//! Development aid: runs random histories and tallies what the oracles say. `explore SEED COUNT [trace PATTERN]`
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use sim::{case, run};
use std::collections::BTreeMap;
use std::sync::Mutex;

fn norm(t: &str) -> String {
    let mut s = String::new();
    for c in t.chars().take(220) {
        if c.is_ascii_digit() {
            if !s.ends_with('#') {
                s.push('#');
            }
        } else {
            s.push(c);
        }
    }
    s.chars().take(120).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let count: u64 = a[2].parse().unwrap();
    let pattern = a.get(3).cloned();
    sim::world::install_hook();
    let tally: Mutex<BTreeMap<String, (u64, usize, String)>> = Mutex::new(BTreeMap::new());
    let labels: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let stats: Mutex<(u64, u64)> = Mutex::new((0, 0));
    let t0 = std::time::Instant::now();
    std::thread::scope(|s| {
        for th in 0..8u64 {
            let (tally, labels, stats) = (&tally, &labels, &stats);
            let pattern = pattern.clone();
            s.spawn(move || {
                let p = case::Profile { flood: 0, twice: 1, intrude: 1, ..Default::default() };
                let strat = case::case(&p);
                let mut i = th;
                while i < count {
                    let mut sd = [0u8; 32];
                    sd[..8].copy_from_slice(&seed.to_le_bytes());
                    sd[8..16].copy_from_slice(&i.to_le_bytes());
                    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &sd));
                    let c = strat.new_tree(&mut r).unwrap().current();
                    let rep = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run::run_case(&c, ""))) {
                        Ok(r) => r,
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            run::Report { violations: vec![(vec!["HARNESS"], m)], ..Default::default() }
                        }
                    };
                    {
                        let mut st = stats.lock().unwrap();
                        st.0 += rep.messages;
                        st.1 += rep.attempts as u64;
                        let mut l = labels.lock().unwrap();
                        for k in rep.labels.keys() {
                            *l.entry(k).or_default() += 1;
                        }
                        let mut t = tally.lock().unwrap();
                        if let Some((tags, text)) = rep.violations.first() {
                            let k = format!("{tags:?} {}", norm(text));
                            let e = t.entry(k).or_insert((0, usize::MAX, String::new()));
                            e.0 += 1;
                            if c.ops.len() < e.1 {
                                e.1 = c.ops.len();
                                e.2 = format!("{}\n   {text}", serde_json::to_string(&c).unwrap());
                            }
                        }
                    }
                    if let Some(p) = &pattern {
                        if rep.violations.first().is_some_and(|v| format!("{v:?}").contains(p.as_str())) {
                            // shrink greedily by removing operations
                            let mut c = c.clone();
                            let bad = |c: &case::Case| run::run_case(c, "*").violations.first().is_some_and(|v| format!("{v:?}").contains(p.as_str()));
                            loop {
                                let mut any = false;
                                let mut k = c.ops.len();
                                while k > 0 {
                                    k -= 1;
                                    let mut d = c.clone();
                                    d.ops.remove(k);
                                    if bad(&d) {
                                        c = d;
                                        any = true;
                                    }
                                }
                                if !any {
                                    break;
                                }
                            }
                            let r = run::run_traced(&c, true, true, "");
                            let mut l = labels.lock().unwrap();
                            l.clear();
                            println!("{}", r.trace.join("\n"));
                            println!("{}", serde_json::to_string(&c).unwrap());
                            println!("{:#?}", r.violations);
                            std::process::exit(0);
                        }
                    }
                    i += 8;
                }
            });
        }
    });
    let st = stats.lock().unwrap();
    println!("{count} cases, {} messages, {} attempts, {:?}", st.0, st.1, t0.elapsed());
    println!("{:?}", labels.lock().unwrap());
    for (k, (c, _, ex)) in tally.lock().unwrap().iter() {
        println!("{c:5}  {k}\n   {}", ex.chars().rev().take(1500).collect::<String>().chars().rev().collect::<String>());
    }
}
