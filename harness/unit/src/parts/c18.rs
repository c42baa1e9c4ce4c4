//! C18: amounts are exact 256-bit integers in every operation and encoding.
use candid::Nat;
use evm_minter::checked_amount::CheckedAmountOf;
use evm_minter::numeric::{GasAmount, Wei, WeiPerGas};
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use crate::*;

enum Tag {}
enum Other {}
type A = CheckedAmountOf<Tag>;

fn amt(u: &U) -> A {
    A::from_be_bytes(u.be32())
}
fn val<T>(a: CheckedAmountOf<T>) -> BigUint {
    let i = a.into_inner();
    (BigUint::from(*i.high()) << 128) + BigUint::from(*i.low())
}
fn opt(r: BigUint) -> Option<BigUint> {
    if r.bits() > 256 {
        None
    } else {
        Some(r)
    }
}
fn e256(u: &U) -> ethnum::u256 {
    ethnum::u256::from_be_bytes(u.be32())
}

pub fn run(c: &mut Ctx) {
    // `b` is often related to `a`, so that near-overflow, equality and exact division are common.
    let pair = || {
        (u256(), u256(), 0u8..8, uint(66)).prop_map(|(a, b, k, s)| {
            let m = max256();
            let b2 = match k {
                0 => a.0.clone(),
                1 => &m - &a.0,
                2 => {
                    let v = &m - &a.0 + 1u8;
                    if v > m { m.clone() } else { v }
                }
                3 => {
                    let v = &a.0 + &s.0;
                    if v > m { m.clone() } else { v }
                }
                4 => if a.0 >= s.0 { &a.0 - &s.0 } else { s.0.clone() },
                5 => if a.0.is_zero() { m.clone() } else { &m / &a.0 },
                6 => s.0.clone(),
                _ => b.0,
            };
            (a, U(b2))
        })
    };
    c.check(
        "arithmetic",
        "pairs of 256-bit integers biased to boundaries and to overflow/underflow/exact-division relations; non-trivial = both non-zero",
        1_200_000,
        pair,
        |(ua, ub)| {
            let (a, b) = (amt(ua), amt(ub));
            let (x, y) = (&ua.0, &ub.0);
            ensure_eq!(val(a), *x, "from_be_bytes");
            ensure_eq!(a.checked_add(b).map(val), opt(x + y), "checked_add");
            ensure_eq!(a.checked_sub(b).map(val), if x >= y { Some(x - y) } else { None }, "checked_sub");
            ensure_eq!(a.checked_mul(e256(ub)).map(val), opt(x * y), "checked_mul");
            let floor = if y.is_zero() { None } else { Some(x / y) };
            let ceil = if y.is_zero() { None } else { Some((x + y - 1u8) / y) };
            ensure_eq!(a.checked_div_floor(e256(ub)).map(val), floor, "checked_div_floor");
            ensure_eq!(a.checked_div_ceil(e256(ub)).map(val), ceil, "checked_div_ceil");
            ensure_eq!(a.checked_increment().map(val), opt(x + 1u8), "checked_increment");
            ensure_eq!(a.checked_decrement().map(val), if x.is_zero() { None } else { Some(x - 1u8) }, "checked_decrement");
            ensure_eq!(val(a.div_by_two()), x / 2u8, "div_by_two");
            ensure_eq!(val(a.change_units::<Other>()), *x, "change_units");
            ensure_eq!(a.cmp(&b), x.cmp(y), "ordering");
            ensure_eq!(a.partial_cmp(&b), Some(x.cmp(y)), "partial ordering");
            ensure_eq!(a == b, x == y, "equality");
            let cost: Option<Wei> = a.change_units::<evm_minter::numeric::WeiPerGasUnit>().transaction_cost(b.change_units());
            ensure_eq!(cost.map(val), opt(x * y), "transaction_cost");
            let price: Option<WeiPerGas> = Wei::from_be_bytes(ua.be32()).into_wei_per_gas(GasAmount::from_be_bytes(ub.be32()));
            ensure_eq!(price.map(val), floor_copy(x, y), "into_wei_per_gas");
            Ok(Info::nontrivial(!x.is_zero() && !y.is_zero())
                .label_if((x + y).bits() > 256, "add overflows")
                .label_if((x * y).bits() > 256, "mul overflows")
                .label_if(x < y, "sub underflows")
                .label_if(!y.is_zero() && (x % y).is_zero() && !x.is_zero(), "divides exactly"))
        },
    );
    c.check(
        "small factors",
        "a 256-bit integer with factors and divisors of every primitive width; non-trivial = amount above 64 bits",
        300_000,
        || (u256(), any::<u8>(), any::<u16>(), any::<u32>(), any::<u64>(), uint(128)),
        |(ua, f8, f16, f32_, f64_, f128)| {
            let a = amt(ua);
            let x = &ua.0;
            let w = f128.0.to_u128().unwrap();
            macro_rules! each {
                ($f:expr) => {{
                    let f = $f;
                    let y = BigUint::from(f);
                    ensure_eq!(a.checked_mul(f).map(val), opt(x * &y), "checked_mul by {}", f);
                    ensure_eq!(a.checked_div_floor(f).map(val), floor_copy(x, &y), "checked_div_floor by {}", f);
                    ensure_eq!(a.checked_div_ceil(f).map(val), if y.is_zero() { None } else { Some((x + &y - 1u8) / &y) }, "checked_div_ceil by {}", f);
                    ensure_eq!(val(A::from(f)), y, "conversion from {}", f);
                }};
            }
            each!(*f8);
            each!(*f16);
            each!(*f32_);
            each!(*f64_);
            each!(w);
            ensure_eq!(val(A::new(w)), BigUint::from(w), "new");
            let (hi, lo) = (*e256(ua).high(), *e256(ua).low());
            ensure_eq!(val(A::from_words(hi, lo)), *x, "from_words");
            ensure_eq!(val(A::ZERO), BigUint::zero(), "ZERO");
            ensure_eq!(val(A::ONE), big(1), "ONE");
            ensure_eq!(val(A::TWO), big(2), "TWO");
            ensure_eq!(val(A::MAX), max256(), "MAX");
            Ok(Info::nontrivial(x.bits() > 64))
        },
    );
    c.check(
        "conversions",
        "naturals up to 300 bits converted to and from amounts, bytes and text; non-trivial = above 64 bits",
        500_000,
        || prop_oneof![4 => u256(), 1 => uint(300), 1 => uint(258)],
        |u| {
            let x = &u.0;
            let r = A::try_from(Nat(x.clone()));
            if !u.fits256() {
                ensure!(r.is_err(), "a natural of {} bits became {:?}", x.bits(), r);
                ensure!(A::from_str_hex(&format!("0x{:x}", x)).is_err(), "hex text of {} bits accepted", x.bits());
                let mut enc = cbor_nat(x);
                ensure!(minicbor::decode::<A>(&enc).is_err(), "CBOR of {} bits accepted", x.bits());
                enc.push(0);
                return Ok(Info::nontrivial(true).label("above 256 bits"));
            }
            let a = match r {
                Ok(a) => a,
                Err(e) => return Err(format!("a natural of {} bits was refused: {e}", x.bits())),
            };
            ensure_eq!(val(a), *x, "from Nat");
            ensure_eq!(Nat::from(a).0, *x, "to Nat");
            ensure_eq!(a.to_be_bytes(), u.be32(), "to_be_bytes");
            ensure_eq!(val(A::from_be_bytes(u.be32())), *x, "from_be_bytes");
            let n256 = evm_rpc_types::Nat256::from(a);
            ensure_eq!(n256.clone().into_be_bytes(), u.be32(), "to Nat256");
            ensure_eq!(val(A::from(n256)), *x, "from Nat256");
            ensure_eq!(a.to_string_inner(), x.to_string(), "to_string_inner");
            for text in [format!("{a}"), format!("{a:?}")] {
                ensure_eq!(text.replace('_', ""), x.to_string(), "display digits");
                ensure!(text.split('_').skip(1).all(|g| g.len() == 3) && (1..=3).contains(&text.split('_').next().unwrap().len()), "display grouping of {text}");
            }
            ensure_eq!(format!("{a:x}"), format!("{x:x}"), "lower hex");
            ensure_eq!(format!("{a:X}"), format!("{x:X}"), "upper hex");
            for t in [format!("0x{a:x}"), format!("0x{a:X}")] {
                ensure_eq!(A::from_str_hex(&t).ok().map(val), Some(x.clone()), "from_str_hex({t})");
            }
            ensure!(A::from_str_hex(&format!("0x{a:x}g")).is_err(), "non-hex digit accepted");
            let js = serde_json::to_string(&a).map_err(|e| e.to_string())?;
            let back: A = serde_json::from_str(&js).map_err(|e| e.to_string())?;
            ensure_eq!(val(back), *x, "serde round trip through {js}");
            let f = a.as_f64();
            let expect = x.to_f64().unwrap();
            ensure!((f - expect).abs() <= expect * 1e-12, "as_f64: {f} for {x}");
            Ok(Info::nontrivial(x.bits() > 64))
        },
    );
    c.check(
        "encodings",
        "RLP and CBOR bytes against reference encoders, decoding of canonical, padded and truncated forms; non-trivial = at least 2 bytes",
        500_000,
        || (u256(), 0usize..40),
        |(u, cut)| {
            let x = &u.0;
            let a = amt(u);
            let mut minimal = x.to_bytes_be();
            if x.is_zero() {
                minimal.clear();
            }
            let want = match minimal.as_slice() {
                [b] if *b < 0x80 => vec![*b],
                m => {
                    let mut v = vec![0x80 + m.len() as u8];
                    v.extend_from_slice(m);
                    v
                }
            };
            ensure_eq!(rlp::encode(&a).to_vec(), want, "RLP of {x:x}");
            let mut s = rlp::RlpStream::new();
            s.begin_unbounded_list();
            s.append(&a);
            s.append(&a);
            s.finalize_unbounded_list();
            ensure_eq!(s.out().to_vec(), { let mut v = vec![]; let body = want.len() * 2; if body < 56 { v.push(0xc0 + body as u8) } else { v.extend([0xf8, body as u8]) }; v.extend(&want); v.extend(&want); v }, "RLP list");
            let mut buf = vec![];
            minicbor::encode(a, &mut buf).map_err(|e| e.to_string())?;
            let want = cbor_nat(x);
            ensure_eq!(buf, want, "CBOR of {x:x}");
            let back: A = minicbor::decode(&buf).map_err(|e| format!("decoding own CBOR: {e}"))?;
            ensure_eq!(val(back), *x, "CBOR round trip");
            // a bignum padded with zeros to at most 32 bytes is still the same number
            let mut padded = vec![0xc2];
            padded.extend(cbor_bytes(&u.be32()));
            ensure_eq!(minicbor::decode::<A>(&padded).ok().map(val), Some(x.clone()), "CBOR padded to 32 bytes");
            let mut long = vec![0xc2];
            long.extend(cbor_bytes(&[&[0u8][..], &u.be32()[..]].concat()));
            ensure!(minicbor::decode::<A>(&long).is_err(), "CBOR bignum of 33 bytes accepted");
            let mut negative = vec![0xc3];
            negative.extend(cbor_bytes(&u.be32()));
            ensure!(minicbor::decode::<A>(&negative).is_err(), "negative bignum accepted");
            if *cut < buf.len() {
                ensure!(minicbor::decode::<A>(&buf[..*cut]).is_err(), "truncated CBOR accepted");
            }
            Ok(Info::nontrivial(x.bits() > 8))
        },
    );
}

fn floor_copy(x: &BigUint, y: &BigUint) -> Option<BigUint> {
    if y.is_zero() {
        None
    } else {
        Some(x / y)
    }
}
