//! C21: block ranges split into chunks and halves that cover them exactly.
use evm_minter::numeric::{BlockNumber, BlockRangeInclusive};
use num_bigint::BigUint;
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use crate::*;

fn bn(u: &BigUint) -> BlockNumber {
    BlockNumber::from_be_bytes(U(u.clone()).be32())
}
fn val(b: BlockNumber) -> BigUint {
    BigUint::from_bytes_be(&b.to_be_bytes())
}
fn ends(r: BlockRangeInclusive) -> (BigUint, BigUint) {
    let (a, b) = r.into_inner();
    (val(a), val(b))
}
fn cap(v: BigUint) -> BigUint {
    v.min(max256())
}

pub fn run(c: &mut Ctx) {
    // start, chunk size, number of blocks expressed as k chunks + remainder
    c.check(
        "chunks",
        "start block (boundary-biased), chunk size 1..=65535, length of 0..40 chunks plus a remainder; non-trivial = at least two chunks",
        60_000,
        || (u256(), prop_oneof![3 => 1u16..20, 1 => any::<u16>().prop_map(|n| n.max(1)), 1 => Just(u16::MAX), 1 => 490u16..=1010], 0u64..40, -2i64..3, any::<u16>(), any::<bool>(), any::<bool>()),
        |(s, size, chunks, off, rem, use_rem, empty)| {
            let blocks = (*chunks as i64 * *size as i64 + if *use_rem { (*rem % *size) as i64 } else { *off }).max(1) as u64;
            let start = s.0.clone();
            let (start, end) = if *empty && start > big(0) {
                (start.clone(), start - 1u8)
            } else {
                (start.clone(), cap(start + blocks - 1u8))
            };
            let r = BlockRangeInclusive::new(bn(&start), bn(&end));
            ensure_eq!(ends(r.clone()), (start.clone(), end.clone()), "into_inner");
            let mut next = start.clone();
            let mut n = 0u64;
            let mut iter = r.into_chunks(*size);
            let mut done = end < start;
            loop {
                let piece = iter.next();
                let Some(piece) = piece else { break };
                ensure!(!done, "a chunk after the end of the range: {piece}");
                n += 1;
                ensure!(n <= 200, "too many chunks");
                let (a, b) = ends(piece);
                ensure_eq!(a, next, "start of chunk {n}");
                ensure!(a <= b && b <= end, "chunk {a}..={b} of {start}..={end}");
                let len = &b - &a + 1u8;
                ensure!(len <= big(*size as u128), "chunk of {len} blocks, limit {size}");
                if b == end {
                    done = true;
                } else {
                    ensure!(len == big(*size as u128) || &a + big(*size as u128) > max256(), "chunk of {len} blocks before the last, size {size}");
                    next = b + 1u8;
                }
            }
            ensure!(done, "chunks stop before the end of {start}..={end}");
            ensure!(iter.next().is_none(), "the iterator restarts after its end");
            Ok(Info::nontrivial(n >= 2).label_if(end == max256(), "ends at the maximum").label_if(end < start, "empty"))
        },
    );
    c.check(
        "partition and halves",
        "ranges and cut points (inside, at the ends, outside) over 256-bit block numbers; non-trivial = at least two blocks",
        200_000,
        || (u256(), prop_oneof![2 => uint(5), 2 => uint(16), 1 => uint(256)], prop_oneof![3 => uint(6), 1 => uint(256)], 0u8..5),
        |(s, len, m, k)| {
            let start = s.0.clone();
            let end = cap(&start + &len.0);
            let r = BlockRangeInclusive::new(bn(&start), bn(&end));
            let mid = match k {
                0 => start.clone(),
                1 => end.clone(),
                2 => cap(&start + &m.0),
                3 => if end >= m.0 { &end - &m.0 } else { end.clone() },
                _ => m.0.clone(),
            };
            let (l, rr) = r.clone().partition_at_checked(bn(&mid));
            let (wl, wr) = if mid <= start {
                (None, Some((start.clone(), end.clone())))
            } else if mid > end {
                (Some((start.clone(), end.clone())), None)
            } else {
                (Some((start.clone(), &mid - 1u8)), Some((mid.clone(), end.clone())))
            };
            ensure_eq!(l.clone().map(ends), wl, "left part of {start}..={end} at {mid}");
            ensure_eq!(rr.clone().map(ends), wr, "right part of {start}..={end} at {mid}");
            if let (Some(l), Some(rr)) = (l, rr) {
                ensure_eq!(ends(l.clone().join_with(rr.clone())), (start.clone(), end.clone()), "join");
                ensure_eq!(ends(rr.join_with(l)), (start.clone(), end.clone()), "join reversed");
            }
            let blocks = &end - &start + 1u8;
            match r.clone().partition_into_halves() {
                (Some(l), None) => {
                    ensure_eq!(ends(l), (start.clone(), end.clone()), "half of a single block");
                    ensure!(blocks == big(1), "a range of {blocks} blocks was not split");
                }
                (Some(l), Some(h)) => {
                    let ((a, b), (x, y)) = (ends(l), ends(h));
                    ensure!(a == start && y == end && &b + 1u8 == x && a <= b && x <= y, "halves {a}..={b}, {x}..={y} of {start}..={end}");
                    let (n1, n2) = (&b - &a + 1u8, &y - &x + 1u8);
                    ensure!(n1 >= n2 && &n1 - &n2 <= big(1), "unbalanced halves: {n1} and {n2}");
                }
                (None, _) => return Err("halving lost the left part".into()),
            }
            let display = format!("{r}");
            ensure_eq!(display.replace('_', ""), format!("{start}..={end}"), "display");
            Ok(Info::nontrivial(blocks >= big(2)).label_if(end == max256(), "ends at the maximum"))
        },
    );
    c.check(
        "joining any two ranges",
        "two ranges in any position; the join spans both; non-trivial = different ranges",
        50_000,
        || (uint(40), uint(8), uint(40), uint(8), any::<bool>()),
        |(a, la, b, lb, near)| {
            let b0 = if *near { &a.0 + &lb.0 } else { b.0.clone() };
            let (r1, r2) = ((a.0.clone(), &a.0 + &la.0), (b0.clone(), b0 + &lb.0));
            let x = BlockRangeInclusive::new(bn(&r1.0), bn(&r1.1));
            let y = BlockRangeInclusive::new(bn(&r2.0), bn(&r2.1));
            let want = (r1.0.clone().min(r2.0.clone()), r1.1.clone().max(r2.1.clone()));
            ensure_eq!(ends(x.clone().join_with(y.clone())), want, "join");
            ensure_eq!(ends(y.join_with(x)), want, "join reversed");
            Ok(Info::nontrivial(r1 != r2))
        },
    );
}
