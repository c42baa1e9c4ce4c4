//! Development aid: prints the trace of a replayed history. `trace FILE`
fn main() {
    let f = std::env::args().nth(1).unwrap();
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    let c: sim::case::Case = serde_json::from_value(v["input"].clone()).unwrap();
    sim::world::install_hook();
    let r = sim::run::run_traced(&c, true, true, "");
    for l in &r.trace {
        println!("{l}");
    }
    for (t, m) in &r.violations {
        println!("!! {t:?} {m}");
    }
    println!("{:?} attempts {}", r.labels, r.attempts);
}
