//! C17: addresses are parsed, printed and validated without ambiguity.
use evm_minter::address::{ecdsa_public_key_to_address, validate_address_as_destination, AddressValidationError};
use evm_minter::eth_types::Address;
use evm_minter::rpc_declrations::{Data, FixedSizeData, Hash};
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use std::str::FromStr;
use crate::*;

/// 20 bytes with a bias to zeros and small values.
fn bytes20() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => prop::collection::vec(any::<u8>(), 20),
        2 => (prop::collection::vec(any::<u8>(), 20), 0usize..20).prop_map(|(mut b, n)| { b[..n].fill(0); b }),
        1 => (prop::collection::vec(any::<u8>(), 20), 0usize..20).prop_map(|(mut b, n)| { b[n..].fill(0); b }),
        1 => Just(vec![0u8; 20]),
        1 => (0usize..20, any::<u8>()).prop_map(|(i, x)| { let mut b = vec![0u8; 20]; b[i] = x; b }),
    ]
    .boxed()
}

/// Address-like text: right and wrong lengths, prefixes, letter cases and characters.
fn text() -> BoxedStrategy<String> {
    let cased = (bytes20(), any::<u64>()).prop_map(|(b, mask)| {
        let h: String = hex::encode(b).chars().enumerate().map(|(i, c)| if mask >> (i % 64) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        format!("0x{h}")
    });
    prop_oneof![
        4 => cased.clone(),
        2 => (cased.clone(), 0usize..42, "[ -~]|é|\\PC").prop_map(|(s, i, r)| { let mut c: Vec<String> = s.chars().map(|c| c.to_string()).collect(); c[i] = r; c.concat() }),
        1 => (cased.clone(), 0usize..42).prop_map(|(s, i)| { let mut s = s; s.remove(i); s }),
        1 => (cased.clone(), 0usize..43, "[0-9a-fxX ]").prop_map(|(s, i, r)| { let mut s = s; s.insert_str(i, &r); s }),
        1 => (cased.clone(), 1usize..3).prop_map(|(s, n)| format!("{s}{}", "00".repeat(n))),
        1 => (cased.clone(), "[ \\t\\n]").prop_map(|(s, w)| format!("{w}{s}")),
        1 => (cased.clone(), "[ \\t\\n]").prop_map(|(s, w)| format!("{s}{w}")),
        1 => cased.clone().prop_map(|s| s[2..].to_string()),
        1 => cased.clone().prop_map(|s| format!("0X{}", &s[2..])),
        2 => (cased.clone(), prop_oneof![Just("0x"), Just("0x0x"), Just("x"), Just("0"), Just("00"), Just("\\x"), Just("0x0X"), Just("+"), Just("-"), Just("eth:"), Just("\""), Just("\0")], any::<bool>()).prop_map(|(s, p, keep)| format!("{p}{}", if keep { &s[..] } else { &s[2..] })),
        1 => (cased.clone(), prop_oneof![Just("0x"), Just("x"), Just("h"), Just(".eth"), Just("\0"), Just("\""), Just(","), Just("_")]).prop_map(|(s, p)| format!("{s}{p}")),
        1 => (cased.clone(), cased.clone(), 0usize..42, 0usize..42).prop_map(|(a, b, i, j)| format!("{}{}", &a[..i], &b[j..])),
        1 => (cased.clone(), 1usize..12).prop_map(|(s, n)| format!("0x{}{}", "0".repeat(n), &s[2..])),
        1 => (cased.clone(), 2usize..41, prop_oneof![Just("_"), Just(" "), Just("0x"), Just("-")]).prop_map(|(s, i, r)| { let mut s = s; s.insert_str(i, r); s }),
        1 => (cased, 3usize..41, 1usize..3).prop_map(|(s, i, n)| { let mut s = s; s.replace_range(i..(i + n).min(42), "_"); s }),
        1 => (0usize..64).prop_map(|n| format!("0x{}", "0".repeat(n))),
        1 => "\\PC{0,44}",
    ]
    .boxed()
}

/// Reference parser, from the grammar.
fn reference(s: &str) -> Option<[u8; 20]> {
    let b = s.as_bytes();
    if b.len() != 42 || b[0] != b'0' || b[1] != b'x' {
        return None;
    }
    let mut out = [0u8; 20];
    for i in 0..40 {
        let d = match b[2 + i] {
            c @ b'0'..=b'9' => c - b'0',
            c @ b'a'..=b'f' => c - b'a' + 10,
            c @ b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        };
        out[i / 2] = out[i / 2] << 4 | d;
    }
    Some(out)
}

pub fn run(c: &mut Ctx) {
    c.check(
        "printing",
        "20-byte values (random, mostly zero, zero); every one counts as non-trivial unless all zero",
        400_000,
        bytes20,
        |b| {
            let raw: [u8; 20] = b.clone().try_into().unwrap();
            let a = Address::new(raw);
            let want = eip55(&raw);
            ensure_eq!(a.to_string(), want, "display");
            ensure_eq!(format!("{a:?}"), want, "debug");
            ensure_eq!(Address::from_str(&want), Ok(a), "parse of the printed form");
            ensure_eq!(format!("{a:x}"), format!("0x{}", hex::encode(raw)), "lower hex");
            ensure_eq!(format!("{a:X}"), format!("0x{}", hex::encode_upper(raw)), "upper hex");
            ensure_eq!(a.into_bytes(), raw, "into_bytes");
            ensure_eq!(a.as_ref(), &raw[..], "as_ref");
            ensure_eq!(a.is_native_token(), raw == [0u8; 20], "is_native_token");
            ensure_eq!(a == Address::ZERO, raw == [0u8; 20], "zero");
            let mut word = [0u8; 32];
            word[12..].copy_from_slice(&raw);
            ensure_eq!(<[u8; 32]>::from(&a), word, "padded to 32 bytes");
            ensure_eq!(Address::try_from(&word), Ok(a), "from a 32-byte word");
            let js = serde_json::to_string(&a).map_err(|e| e.to_string())?;
            ensure_eq!(js, format!("\"0x{}\"", hex::encode(raw)), "json");
            ensure_eq!(serde_json::from_str::<Address>(&js).ok(), Some(a), "json round trip");
            let mut cb = vec![];
            minicbor::encode(a, &mut cb).map_err(|e| e.to_string())?;
            ensure_eq!(cb, cbor_bytes(&raw), "cbor");
            ensure_eq!(minicbor::decode::<Address>(&cb).ok(), Some(a), "cbor round trip");
            Ok(Info::nontrivial(raw != [0u8; 20]))
        },
    );
    c.check(
        "parsing",
        "address-like and arbitrary texts, with mutations of length, prefix, case and characters; non-trivial = refused, or accepted with a letter digit",
        400_000,
        text,
        |s| {
            let want = reference(s);
            let got = Address::from_str(s);
            match (&want, &got) {
                (Some(w), Ok(a)) => ensure_eq!(a.into_bytes(), *w, "parsed value of {s:?}"),
                (None, Err(_)) => {}
                (Some(_), Err(e)) => return Err(format!("valid address {s:?} refused: {e}")),
                (None, Ok(a)) => return Err(format!("invalid address {s:?} accepted as {a}")),
            }
            let dest = validate_address_as_destination(s);
            match want {
                None => ensure!(matches!(dest, Err(AddressValidationError::Invalid { .. })), "destination {s:?}: {dest:?}"),
                Some([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]) => ensure_eq!(dest, Err(AddressValidationError::NotSupported(Address::ZERO)), "zero destination"),
                Some(w) => ensure_eq!(dest, Ok(Address::new(w)), "destination {s:?}"),
            }
            let js = serde_json::to_string(s).unwrap();
            ensure_eq!(serde_json::from_str::<Address>(&js).ok().map(|a| a.into_bytes()), want, "json form {js}");
            Ok(Info::nontrivial(want.is_none() || s[2..].bytes().any(|b| !b.is_ascii_digit())).label(if want.is_some() { "valid" } else { "invalid" }))
        },
    );
    c.check(
        "words",
        "32-byte words with and without the 12 leading zero bytes of an address; non-trivial = word not all zero",
        100_000,
        || prop_oneof![
            2 => prop::collection::vec(any::<u8>(), 32),
            2 => (bytes20(), 0usize..12, any::<u8>()).prop_map(|(b, i, x)| { let mut w = vec![0u8; 12]; w[i] = x; w.extend(b); w }),
            2 => bytes20().prop_map(|b| { let mut w = vec![0u8; 12]; w.extend(b); w }),
        ],
        |w| {
            let word: [u8; 32] = w.clone().try_into().unwrap();
            let ok = word[..12] == [0u8; 12];
            let got = Address::try_from(&word);
            ensure_eq!(got.is_ok(), ok, "word {word:?} accepted as an address");
            if let Ok(a) = got {
                ensure_eq!(&a.into_bytes()[..], &word[12..], "address of a word");
            }
            let text = format!("0x{}", hex::encode(word));
            ensure_eq!(Hash(word).to_string(), text, "hash display");
            ensure_eq!(Hash::from_str(&text), Ok(Hash(word)), "hash parse");
            ensure_eq!(FixedSizeData(word).to_string(), text, "word display");
            ensure_eq!(FixedSizeData::from_str(&text), Ok(FixedSizeData(word)), "word parse");
            Ok(Info::nontrivial(word != [0u8; 32]).label_if(ok, "address word"))
        },
    );
    c.check(
        "data text",
        "hex DATA texts of arbitrary bytes and their corruptions; non-trivial = non-empty",
        50_000,
        || (prop::collection::vec(any::<u8>(), 0..70), 0u8..5),
        |(b, k)| {
            let good = format!("0x{}", hex::encode(b));
            let s = match k {
                0 => good[2..].to_string(),
                1 => format!("{good}0"),
                2 => format!("{good}zz"),
                _ => good.clone(),
            };
            let want = if s == good { Some(b.clone()) } else { None };
            ensure_eq!(Data::from_str(&s).ok().map(|d| d.0), want, "Data {s}");
            let want32 = if s == good && b.len() == 32 { Some(b.clone()) } else { None };
            ensure_eq!(FixedSizeData::from_str(&s).ok().map(|d| d.0.to_vec()), want32, "FixedSizeData {s}");
            ensure_eq!(Hash::from_str(&s).ok().map(|d| d.0.to_vec()), want32, "Hash {s}");
            Ok(Info::nontrivial(!b.is_empty()))
        },
    );
    c.check(
        "public keys",
        "secp256k1 secret scalars; the address is the last 20 bytes of Keccak-256 of the uncompressed point; every case is non-trivial",
        2_000,
        || prop::collection::vec(any::<u8>(), 32),
        |b| {
            let mut k = b.clone();
            k[0] &= 0x7f;
            k[31] |= 1;
            let sk = k256::SecretKey::from_slice(&k).map_err(|e| e.to_string())?;
            let point = k256::elliptic_curve::sec1::ToEncodedPoint::to_encoded_point(&sk.public_key(), false);
            let pk = ic_crypto_secp256k1::PublicKey::deserialize_sec1(point.as_bytes()).map_err(|_| "stub key".to_string())?;
            let a = ecdsa_public_key_to_address(&pk);
            ensure_eq!(&a.into_bytes()[..], &keccak256(&point.as_bytes()[1..])[12..], "address of a public key");
            Ok(Info::nontrivial(true))
        },
    );
}
