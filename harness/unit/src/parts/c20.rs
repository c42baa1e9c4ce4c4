//! C20: two-key maps behave like a table with two unique keys.
use evm_minter::map::{DedupMultiKeyMap, MultiKeyMap, OccupiedError, OccupiedKey};
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(u8, u8, u16),
    Remove(u8),
    Update(u8, u16),
    DrainBelow(u8),
    DrainMod(u8, u8),
    DrainSome(u16),
    Rebuild,
}

fn op(keys: u8) -> impl Strategy<Value = Op> {
    prop_oneof![
        8 => (0..keys, 0..keys, any::<u16>()).prop_map(|(k, a, v)| Op::Insert(k, a, v)),
        3 => (0..keys).prop_map(Op::Remove),
        2 => (0..keys, any::<u16>()).prop_map(|(k, v)| Op::Update(k, v)),
        1 => (0..keys).prop_map(Op::DrainBelow),
        1 => (1u8..5, 0u8..5).prop_map(|(m, r)| Op::DrainMod(m, r)),
        1 => any::<u16>().prop_map(Op::DrainSome),
        1 => Just(Op::Rebuild),
    ]
}

/// The reference: rows sorted by primary key.
#[derive(Default, Clone)]
struct Table(Vec<(u8, u8, u16)>);
impl Table {
    fn by_key(&self, k: u8) -> Option<&(u8, u8, u16)> {
        self.0.iter().find(|r| r.0 == k)
    }
    fn by_alt(&self, a: u8) -> Option<&(u8, u8, u16)> {
        self.0.iter().find(|r| r.1 == a)
    }
}

pub fn run(c: &mut Ctx) {
    c.check(
        "map vs table",
        "sequences of up to 60 operations over 3 to 24 keys, all lookups compared after every step; non-trivial = a refused insert, a removal and a drain each with effect in one sequence",
        40_000,
        || prop_oneof![Just(3u8), Just(6u8), Just(24u8)].prop_flat_map(|k| (Just(k), prop::collection::vec(op(k), 0..60))),
        |(keys, ops)| {
            let mut m: MultiKeyMap<u8, u8, u16> = MultiKeyMap::default();
            let mut t = Table::default();
            let (mut refused, mut removed, mut drained) = (0, 0, 0);
            for (step, o) in ops.iter().enumerate() {
                match o.clone() {
                    Op::Insert(k, a, v) => {
                        let (kk, aa) = (t.by_key(k).is_some(), t.by_alt(a).is_some());
                        match m.try_insert(k, a, v) {
                            Ok(()) => {
                                ensure!(!kk && !aa, "step {step}: insert ({k},{a}) accepted over an existing row");
                                t.0.push((k, a, v));
                                t.0.sort();
                            }
                            Err(OccupiedError { occupied_key, value }) => {
                                refused += 1;
                                ensure_eq!(value, v, "step {step}: value handed back");
                                match occupied_key {
                                    OccupiedKey::Key(x) => ensure!(kk && x == k, "step {step}: insert ({k},{a}) refused for key {x}"),
                                    OccupiedKey::AltKey(x) => ensure!(aa && x == a, "step {step}: insert ({k},{a}) refused for alternative key {x}"),
                                }
                            }
                        }
                    }
                    Op::Remove(k) => {
                        let want = t.by_key(k).cloned();
                        removed += want.is_some() as usize;
                        ensure_eq!(m.remove_entry(&k), want, "step {step}: remove_entry({k})");
                        t.0.retain(|r| r.0 != k);
                    }
                    Op::Update(k, v) => {
                        let got = m.get_mut(&k).map(|x| {
                            let old = *x;
                            *x = v;
                            old
                        });
                        ensure_eq!(got, t.by_key(k).map(|r| r.2), "step {step}: get_mut({k})");
                        for r in t.0.iter_mut() {
                            if r.0 == k {
                                r.2 = v;
                            }
                        }
                    }
                    Op::DrainBelow(_) | Op::DrainMod(..) | Op::DrainSome(_) => {
                        let pick = |k: &u8| match *o {
                            Op::DrainBelow(b) => *k < b,
                            Op::DrainMod(md, r) => *k % md == r % md,
                            Op::DrainSome(mask) => mask >> (*k % 16) & 1 == 1,
                            _ => false,
                        };
                        let want: Vec<_> = t.0.iter().filter(|r| pick(&r.0)).cloned().collect();
                        drained += (!want.is_empty()) as usize;
                        let mut asked = vec![];
                        let got = m.drain(|k| {
                            asked.push(*k);
                            pick(k)
                        });
                        ensure_eq!(got, want, "step {step}: drain");
                        let keys_before: Vec<u8> = t.0.iter().map(|r| r.0).collect();
                        ensure_eq!(asked, keys_before, "step {step}: keys shown to the drain predicate");
                        t.0.retain(|r| !pick(&r.0));
                    }
                    Op::Rebuild => {
                        m = t.0.iter().rev().cloned().collect();
                    }
                }
                ensure_eq!(m.is_empty(), t.0.is_empty(), "step {step}: is_empty");
                for k in 0..*keys {
                    let row = t.by_key(k);
                    ensure_eq!(m.get(&k), row.map(|r| &r.2), "step {step}: get({k})");
                    ensure_eq!(m.get_entry(&k), row.map(|r| (&r.1, &r.2)), "step {step}: get_entry({k})");
                    ensure_eq!(m.contains(&k), row.is_some(), "step {step}: contains({k})");
                    let arow = t.by_alt(k);
                    ensure_eq!(m.get_alt(&k), arow.map(|r| &r.2), "step {step}: get_alt({k})");
                    ensure_eq!(m.contains_alt(&k), arow.is_some(), "step {step}: contains_alt({k})");
                }
                let rows: Vec<_> = m.iter().map(|(k, a, v)| (*k, *a, *v)).collect();
                ensure_eq!(rows, t.0, "step {step}: iter");
                ensure_eq!(m.keys().cloned().collect::<Vec<_>>(), t.0.iter().map(|r| r.0).collect::<Vec<_>>(), "step {step}: keys");
                let alts: BTreeSet<u8> = t.0.iter().map(|r| r.1).collect();
                let got: Vec<u8> = m.alt_keys().cloned().collect();
                ensure_eq!(got.len(), alts.len(), "step {step}: number of alternative keys");
                ensure_eq!(got.into_iter().collect::<BTreeSet<_>>(), alts, "step {step}: alternative keys");
                let same: MultiKeyMap<u8, u8, u16> = t.0.iter().cloned().collect();
                ensure!(m == same, "step {step}: not equal to a map with the same rows");
            }
            Ok(Info::nontrivial(refused > 0 && removed > 0 && drained > 0).label_if(refused > 0, "refused insert").label_if(removed > 0, "removed").label_if(drained > 0, "drained"))
        },
    );
    c.check(
        "dedup map vs table",
        "sequences of up to 60 insertions over 3 to 24 keys; non-trivial = at least one refused for each kind of key",
        30_000,
        || prop_oneof![Just(3u8), Just(6u8), Just(24u8)].prop_flat_map(|k| (Just(k), prop::collection::vec((0..k, 0..k, any::<u16>()), 0..60))),
        |(keys, rows)| {
            let mut m: DedupMultiKeyMap<u8, u8, u16> = DedupMultiKeyMap::default();
            let mut t = Table::default();
            let (mut by_key, mut by_alt) = (0, 0);
            for (k, a, v) in rows {
                let (kk, aa) = (t.by_key(*k).is_some(), t.by_alt(*a).is_some());
                match m.try_insert(*k, *a, *v) {
                    Ok(()) => {
                        ensure!(!kk && !aa, "insert ({k},{a}) accepted over an existing row");
                        t.0.push((*k, *a, *v));
                        t.0.sort();
                    }
                    Err(OccupiedError { occupied_key, value }) => {
                        ensure_eq!(value, *v, "value handed back");
                        match occupied_key {
                            OccupiedKey::Key(x) => {
                                by_key += 1;
                                ensure!(kk && x == *k, "insert ({k},{a}) refused for key {x}")
                            }
                            OccupiedKey::AltKey(x) => {
                                by_alt += 1;
                                ensure!(aa && x == *a, "insert ({k},{a}) refused for alternative key {x}")
                            }
                        }
                    }
                }
                for k in 0..*keys {
                    let row = t.by_key(k);
                    ensure_eq!(m.get(&k), row.map(|r| &r.2), "get({k})");
                    ensure_eq!(m.get_entry(&k), row.map(|r| (&r.1, &r.2)), "get_entry({k})");
                    let arow = t.by_alt(k);
                    ensure_eq!(m.get_alt(&k), arow.map(|r| &r.2), "get_alt({k})");
                    ensure_eq!(m.get_entry_alt(&k), arow.map(|r| (&r.0, &r.2)), "get_entry_alt({k})");
                    ensure_eq!(m.contains_alt(&k), arow.is_some(), "contains_alt({k})");
                }
                let got: Vec<_> = m.iter().map(|(k, a, v)| (*k, *a, *v)).collect();
                ensure_eq!(got, t.0, "iter");
                let mut alts: Vec<u8> = t.0.iter().map(|r| r.1).collect();
                alts.sort();
                ensure_eq!(m.alt_keys().cloned().collect::<Vec<_>>(), alts, "alternative keys");
            }
            Ok(Info::nontrivial(by_key > 0 && by_alt > 0))
        },
    );
}
