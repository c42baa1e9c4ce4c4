//! Shared generators and reference encodings; nothing here uses the code under test.
pub mod keys;
pub mod rpc;
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// An unsigned integer of any size, generated with a bias to boundaries; hex in replay files.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct U(pub BigUint);

impl fmt::Debug for U {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{:x}", self.0)
    }
}
impl Serialize for U {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:x}", self.0))
    }
}
impl<'de> Deserialize<'de> for U {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        BigUint::parse_bytes(s.as_bytes(), 16).map(U).ok_or_else(|| serde::de::Error::custom("not hex"))
    }
}

impl U {
    pub fn be32(&self) -> [u8; 32] {
        let b = self.0.to_bytes_be();
        let mut out = [0u8; 32];
        out[32 - b.len()..].copy_from_slice(&b);
        out
    }
    pub fn fits256(&self) -> bool {
        self.0.bits() <= 256
    }
}

pub fn big(n: u128) -> BigUint {
    BigUint::from(n)
}
pub fn pow2(n: u32) -> BigUint {
    BigUint::from(1u8) << n
}
pub fn max256() -> BigUint {
    pow2(256) - 1u8
}

/// Integers below 2^bits: small, around powers of two, near the maximum, and of random bit length.
pub fn uint(bits: u32) -> BoxedStrategy<U> {
    let random = (0..=bits as usize, prop::collection::vec(any::<u8>(), (bits as usize).div_ceil(8))).prop_map(move |(n, b)| {
        let v = BigUint::from_bytes_be(&b);
        U(if n == 0 { BigUint::default() } else { v & (pow2(n as u32) - 1u8) })
    });
    prop_oneof![
        3 => (0u32..300).prop_map(move |n| U(big(n as u128) & (pow2(bits) - 1u8))),
        3 => (0..=bits, 0u32..6).prop_map(move |(p, d)| {
            let v = pow2(p) + 3u8;
            let v = if v > big(d as u128) { v - d } else { BigUint::default() };
            U(if v >= pow2(bits) { pow2(bits) - 1u8 } else { v })
        }),
        1 => (0u32..300).prop_map(move |d| { let m = pow2(bits) - 1u8; U(if m > big(d as u128) { m - d } else { m }) }),
        4 => random,
    ]
    .boxed()
}

pub fn u256() -> BoxedStrategy<U> {
    uint(256)
}

/// Minimal CBOR unsigned head.
pub fn cbor_head(major: u8, n: u64) -> Vec<u8> {
    let m = major << 5;
    if n < 24 {
        vec![m | n as u8]
    } else if n <= 0xff {
        vec![m | 24, n as u8]
    } else if n <= 0xffff {
        let mut v = vec![m | 25];
        v.extend((n as u16).to_be_bytes());
        v
    } else if n <= 0xffff_ffff {
        let mut v = vec![m | 26];
        v.extend((n as u32).to_be_bytes());
        v
    } else {
        let mut v = vec![m | 27];
        v.extend(n.to_be_bytes());
        v
    }
}
pub fn cbor_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = cbor_head(2, b.len() as u64);
    v.extend_from_slice(b);
    v
}
pub fn cbor_text(s: &str) -> Vec<u8> {
    let mut v = cbor_head(3, s.len() as u64);
    v.extend_from_slice(s.as_bytes());
    v
}
/// The established form of natural numbers: an unsigned integer up to 64 bits, else a positive bignum.
pub fn cbor_nat(n: &BigUint) -> Vec<u8> {
    if n.bits() <= 64 {
        return cbor_head(0, n.iter_u64_digits().next().unwrap_or(0));
    }
    let mut v = cbor_head(6, 2);
    v.extend(cbor_bytes(&n.to_bytes_be()));
    v
}

/// Keccak-256 written here from the specification (independent of the code under test).
pub fn keccak256(data: &[u8]) -> [u8; 32] {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
        0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
        0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
        0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const ROT: [[u32; 5]; 5] = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]];
    let mut a = [[0u64; 5]; 5];
    let mut msg = data.to_vec();
    msg.push(1);
    while msg.len() % 136 != 0 {
        msg.push(0);
    }
    let last = msg.len() - 1;
    msg[last] |= 0x80;
    for block in msg.chunks(136) {
        for (i, w) in block.chunks(8).enumerate() {
            a[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        for rc in RC {
            let mut c = [0u64; 5];
            for x in 0..5 {
                c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
            }
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    a[x][y] ^= d;
                }
            }
            let mut b = [[0u64; 5]; 5];
            for x in 0..5 {
                for y in 0..5 {
                    b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(ROT[x][y]);
                }
            }
            for x in 0..5 {
                for y in 0..5 {
                    a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
                }
            }
            a[0][0] ^= rc;
        }
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..][..8].copy_from_slice(&a[i % 5][i / 5].to_le_bytes());
    }
    out
}

/// EIP-55 text of an address.
pub fn eip55(a: &[u8; 20]) -> String {
    let lower = hex::encode(a);
    let h = keccak256(lower.as_bytes());
    let mut out = String::from("0x");
    for (i, c) in lower.chars().enumerate() {
        let nibble = if i % 2 == 0 { h[i / 2] >> 4 } else { h[i / 2] & 15 };
        out.push(if nibble >= 8 { c.to_ascii_uppercase() } else { c });
    }
    out
}

/// Polls a future that never waits for anything outside.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("future waits"),
    }
}

/// Installs a simulated IC environment that lives as long as the worker thread does.
pub fn env() -> &'static mut ic0::sim::Env {
    if !ic0::sim::installed() {
        let e = Box::leak(Box::new(ic0::sim::Env {
            self_id: vec![0, 0, 0, 0, 1, 0x60, 0, 0x11, 1, 1],
            balance: u128::MAX,
            time: 1_700_000_000_000_000_000,
            ..Default::default()
        }));
        ic0::sim::install(e);
    }
    let mut p = std::ptr::null_mut();
    ic0::sim::with(|e| p = e as *mut ic0::sim::Env);
    // SAFETY: leaked above, used by this thread only, and never across a call into ic0.
    unsafe { &mut *p }
}

/// Reply bytes, or a reject code and message.
pub type Answer = Result<Vec<u8>, (i32, String)>;

/// Runs a future that makes inter-canister calls; `respond` plays every callee.
pub fn drive<F: std::future::Future>(f: F, mut respond: impl FnMut(&ic0::sim::OutCall) -> Answer) -> F::Output {
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut f = Box::pin(f);
    env().calls.clear();
    loop {
        env().balance = u128::MAX;
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return v;
        }
        let calls = std::mem::take(&mut env().calls);
        assert!(!calls.is_empty(), "the future waits for nothing");
        for call in calls {
            let e = env();
            let (fun, arg) = match respond(&call) {
                Ok(bytes) => {
                    e.reject_code = 0;
                    e.arg = bytes;
                    (call.reply_fun, call.reply_env)
                }
                Err((code, msg)) => {
                    e.reject_code = code;
                    e.reject_msg = msg.into_bytes();
                    e.arg = vec![];
                    (call.reject_fun, call.reject_env)
                }
            };
            // SAFETY: the pointers are those ic-cdk registered for this call; each is called once.
            unsafe {
                let fun: extern "C-unwind" fn(isize) = std::mem::transmute(fun);
                fun(arg);
            }
        }
    }
}

/// A CBOR value, for reference encodings.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Int(u64),
    Nat(BigUint),
    Bytes(Vec<u8>),
    Text(String),
    Bool(bool),
    List(Vec<V>),
    /// An absent option; dropped at the end of a record unless `explicit`.
    Nil,
    /// A record (array whose absent trailing fields are left out).
    Rec(Vec<V>),
}
impl V {
    pub fn encode(&self, explicit: bool) -> Vec<u8> {
        match self {
            V::Int(n) => cbor_head(0, *n),
            V::Nat(n) => cbor_nat(n),
            V::Bytes(b) => cbor_bytes(b),
            V::Text(s) => cbor_text(s),
            V::Bool(b) => vec![if *b { 0xf5 } else { 0xf4 }],
            V::Nil => vec![0xf6],
            V::List(v) => V::items(v, explicit),
            V::Rec(v) => {
                let keep = if explicit { v.len() } else { v.iter().rposition(|x| *x != V::Nil).map(|i| i + 1).unwrap_or(0) };
                V::items(&v[..keep], explicit)
            }
        }
    }
    fn items(v: &[V], explicit: bool) -> Vec<u8> {
        let mut out = cbor_head(4, v.len() as u64);
        for x in v {
            out.extend(x.encode(explicit));
        }
        out
    }
    /// A variant with its fields.
    pub fn variant(n: u64, fields: Vec<V>) -> V {
        V::List(vec![V::Int(n), V::Rec(fields)])
    }
    pub fn opt(v: Option<V>) -> V {
        v.unwrap_or(V::Nil)
    }
    pub fn b(b: &[u8]) -> V {
        V::Bytes(b.to_vec())
    }
    pub fn t(s: &str) -> V {
        V::Text(s.into())
    }
    pub fn n(u: &U) -> V {
        V::Nat(u.0.clone())
    }
}
