//! C08: every transaction sent is a valid EIP-1559 transaction of the minter.
use crate::{drive, eip55, env, keccak256, rpc, u256, uint, U};
use candid::Principal;
use kit::keys::*;
use evm_minter::eth_types::Address;
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::{Hash, TransactionReceipt, TransactionStatus};
use evm_minter::state::STATE;
use evm_minter::tx::{AccessList, AccessListItem, Eip1559Signature, Eip1559TransactionRequest, SignedEip1559TransactionRequest, StorageKey};
use k256::ecdsa::signature::hazmat::PrehashSigner;
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tx {
    chain: u64,
    n: Vec<U>, // nonce, priority fee, max fee, gas limit, amount
    to: [u8; 20],
    data: Vec<u8>,
    access: Vec<([u8; 20], Vec<[u8; 32]>)>,
    odd: bool,
    r: U,
    s: U,
}
fn tx() -> BoxedStrategy<Tx> {
    let chain = prop_oneof![4 => (0usize..10).prop_map(|i| rpc::NETWORKS[i].1), 1 => any::<u64>(), 1 => (0u32..64, 0u64..3).prop_map(|(s, d)| (1u64 << s).wrapping_sub(d))];
    let data = prop_oneof![
        2 => Just(vec![]),
        2 => prop::collection::vec(any::<u8>(), 68),
        1 => prop::collection::vec(any::<u8>(), 0..4),
        1 => any::<u8>().prop_map(|b| vec![b]),
        1 => prop::collection::vec(any::<u8>(), 50..60),
        1 => prop::collection::vec(any::<u8>(), 250..300),
    ];
    let access = prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((any::<[u8; 20]>(), prop::collection::vec(any::<[u8; 32]>(), 0..3)), 0..4)];
    (chain, prop::collection::vec(prop_oneof![3 => u256(), 2 => uint(64)], 5), any::<[u8; 20]>(), data, access, any::<bool>(), u256(), u256())
        .prop_map(|(chain, n, to, data, access, odd, r, s)| Tx { chain, n, to, data, access, odd, r, s })
        .boxed()
}
fn request(t: &Tx) -> Eip1559TransactionRequest {
    Eip1559TransactionRequest {
        chain_id: t.chain,
        nonce: TransactionNonce::from_be_bytes(t.n[0].be32()),
        max_priority_fee_per_gas: WeiPerGas::from_be_bytes(t.n[1].be32()),
        max_fee_per_gas: WeiPerGas::from_be_bytes(t.n[2].be32()),
        gas_limit: GasAmount::from_be_bytes(t.n[3].be32()),
        destination: Address::new(t.to),
        amount: Wei::from_be_bytes(t.n[4].be32()),
        data: t.data.clone(),
        access_list: AccessList(t.access.iter().map(|(a, k)| AccessListItem { address: Address::new(*a), storage_keys: k.iter().map(|k| StorageKey(*k)).collect() }).collect()),
    }
}
fn fields(t: &Tx) -> Vec<Rlp> {
    let n = |i: usize| Rlp::int(&t.n[i].be32());
    let access = t.access.iter().map(|(a, k)| Rlp::List(vec![Rlp::Bytes(a.to_vec()), Rlp::List(k.iter().map(|k| Rlp::Bytes(k.to_vec())).collect())])).collect();
    vec![Rlp::int(&t.chain.to_be_bytes()), n(0), n(1), n(2), n(3), Rlp::Bytes(t.to.to_vec()), n(4), Rlp::Bytes(t.data.clone()), Rlp::List(access)]
}
fn typed(l: Vec<Rlp>) -> Vec<u8> {
    [vec![2], Rlp::List(l).encode()].concat()
}
fn signed_bytes(t: &Tx, odd: bool, r: &[u8], s: &[u8]) -> Vec<u8> {
    let mut f = fields(t);
    f.extend([Rlp::int(&[odd as u8]), Rlp::int(r), Rlp::int(s)]);
    typed(f)
}
fn u(x: &U) -> ethnum::u256 {
    ethnum::u256::from_be_bytes(x.be32())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sign {
    tx: Tx,
    seed: [u8; 8],
    network: usize,
    address_first: bool,
    reject: u8,
}

pub fn run(ctx: &mut Ctx) {
    ctx.assume("Threshold ECDSA: the subnet returns a valid low-s secp256k1 signature by the key of the given name and derivation path.");
    ctx.check(
        "encoding",
        "every case encodes one signed transaction and compares bytes and hashes with an independent RLP encoder",
        40_000,
        tx,
        |t| {
            let req = request(t);
            ensure_eq!(hex::encode(req.hash().0), hex::encode(keccak256(&typed(fields(t)))), "hash to sign");
            let signed = SignedEip1559TransactionRequest::from((req.clone(), Eip1559Signature { signature_y_parity: t.odd, r: u(&t.r), s: u(&t.s) }));
            let want = signed_bytes(t, t.odd, &t.r.be32(), &t.s.be32());
            ensure_eq!(signed.raw_transaction_hex(), format!("0x{}", hex::encode(&want)), "raw transaction");
            ensure_eq!(hex::encode(signed.hash().0), hex::encode(keccak256(&want)), "transaction hash");
            ensure!(signed.transaction() == &req && signed.nonce() == req.nonce, "the signed transaction is another one");
            // Read back from the log it is the same transaction.
            let again: SignedEip1559TransactionRequest = minicbor::decode(&minicbor::to_vec(&signed).unwrap()).map_err(|e| format!("unreadable: {e}"))?;
            ensure!(again == signed && again.hash() == signed.hash(), "changed by storing");
            Ok(Info::nontrivial(true).label_if(!t.access.is_empty(), "access list").label_if(want.len() > 258, "long").label_if(t.r.be32()[0] == 0 || t.s.be32()[0] == 0, "short r or s"))
        },
    );
    ctx.check(
        "signing",
        "the transaction was signed (cases where the subnet refuses to sign are trivial)",
        6_000,
        || (tx(), any::<[u8; 8]>(), 0usize..10, any::<bool>(), 0u8..12).prop_map(|(tx, seed, network, address_first, reject)| Sign { tx, seed, network, address_first, reject }),
        |c| {
            env();
            STATE.with(|s| *s.borrow_mut() = Some(rpc::state(rpc::NETWORKS[c.network].0, &U(0u8.into()))));
            let mut problem: Option<String> = None;
            let mut answer = |call: &ic0::sim::OutCall| -> crate::Answer {
                if !call.callee.is_empty() {
                    problem.get_or_insert(format!("call to {:?}", call.callee));
                }
                match call.method.as_str() {
                    "ecdsa_public_key" => {
                        let a: PublicKeyArg = candid::decode_one(&call.arg).map_err(|e| (4, e.to_string()))?;
                        let k = subnet_key(&c.seed, &a.key_id.name, &a.derivation_path);
                        Ok(candid::encode_one(PublicKeyReply {
                            public_key: serde_bytes::ByteBuf::from(k.verifying_key().to_encoded_point(true).as_bytes().to_vec()),
                            chain_code: serde_bytes::ByteBuf::from(vec![1; 32]),
                        })
                        .unwrap())
                    }
                    "sign_with_ecdsa" => {
                        if c.reject < 2 {
                            return Err((2 + 2 * c.reject as i32, "busy".into()));
                        }
                        if call.cycles < 26_153_846_153 {
                            return Err((4, "not enough cycles".into()));
                        }
                        let a: SignArg = candid::decode_one(&call.arg).map_err(|e| (4, e.to_string()))?;
                        let k = subnet_key(&c.seed, &a.key_id.name, &a.derivation_path);
                        let sig: k256::ecdsa::Signature = k.sign_prehash(&a.message_hash).map_err(|e| (4, e.to_string()))?;
                        let sig = sig.normalize_s().unwrap_or(sig);
                        Ok(candid::encode_one(SignReply { signature: serde_bytes::ByteBuf::from(sig.to_bytes().to_vec()) }).unwrap())
                    }
                    m => {
                        problem.get_or_insert(format!("call of {m}"));
                        Err((3, "no such method".into()))
                    }
                }
            };
            if c.address_first {
                drive(evm_minter::state::minter_address(), &mut answer);
            }
            let result = drive(request(&c.tx).sign(), &mut answer);
            let published = drive(evm_minter::state::minter_address(), &mut answer);
            let key = subnet_key(&c.seed, "key_1", &[]);
            let own = address_of(key.verifying_key());
            ensure_eq!(published.to_string(), eip55(&own), "published address");
            let reported = evm_minter::state::read_state(|s| s.minter_address());
            ensure!(reported == Some(published), "reported address {reported:?}");
            if let Some(p) = problem {
                return Err(p);
            }
            if c.reject < 2 {
                ensure!(result.is_err(), "signed although the subnet refused");
                return Ok(Info::trivial());
            }
            let signed = result.map_err(|e| format!("not signed: {e}"))?;
            ensure!(signed.transaction() == &request(&c.tx), "another transaction was signed");
            // What goes out on the wire: find parity, r and s, and recover the sender.
            let raw = hex::decode(signed.raw_transaction_hex().strip_prefix("0x").ok_or("no 0x")?).map_err(|e| e.to_string())?;
            ensure_eq!(hex::encode(signed.hash().0), hex::encode(keccak256(&raw)), "hash");
            let digest = keccak256(&typed(fields(&c.tx)));
            let (sig, recid) = key.sign_prehash_recoverable(&digest).map_err(|e| e.to_string())?;
            let (sig, recid) = match sig.normalize_s() {
                Some(n) => (n, k256::ecdsa::RecoveryId::from_byte(recid.to_byte() ^ 1).unwrap()),
                None => (sig, recid),
            };
            let want = signed_bytes(&c.tx, recid.is_y_odd(), &sig.r().to_bytes(), &sig.s().to_bytes());
            ensure_eq!(hex::encode(&raw), hex::encode(&want), "signed transaction");
            let back = k256::ecdsa::VerifyingKey::recover_from_prehash(&digest, &sig, recid).map_err(|e| e.to_string())?;
            ensure_eq!(hex::encode(address_of(&back)), hex::encode(own), "sender");
            Ok(Info::nontrivial(true).label_if(recid.is_y_odd(), "odd").label_if(c.address_first, "address known before"))
        },
    );
    ctx.check(
        "receipt",
        "the receipt is for the hash of the signed transaction",
        40_000,
        || (tx(), u256(), u256(), -2i8..=2, -2i8..=2, 0u8..8, any::<bool>(), u256(), any::<[u8; 32]>()),
        |(t, price, gas, dp, dg, kind, ok, block, bh)| {
            let signed = SignedEip1559TransactionRequest::from((request(t), Eip1559Signature { signature_y_parity: t.odd, r: u(&t.r), s: u(&t.s) }));
            let near = |base: &U, d: i8| -> U {
                let b = &base.0;
                let x = if d < 0 { let m = num_bigint::BigUint::from((-d) as u8); if *b < m { b.clone() } else { b - m } } else { b + (d as u8) };
                if x > crate::max256() { U(b.clone()) } else { U(x) }
            };
            let price = if kind & 1 == 0 { near(&t.n[2], *dp) } else { price.clone() };
            let gas = if kind & 2 == 0 { near(&t.n[3], *dg) } else { gas.clone() };
            let mut hash = signed.hash();
            if *kind >= 6 {
                hash.0[(*dp + 2) as usize] ^= 1;
            }
            let receipt = TransactionReceipt {
                block_hash: Hash(*bh),
                block_number: BlockNumber::from_be_bytes(block.be32()),
                effective_gas_price: WeiPerGas::from_be_bytes(price.be32()),
                gas_used: GasAmount::from_be_bytes(gas.be32()),
                status: if *ok { TransactionStatus::Success } else { TransactionStatus::Failure },
                transaction_hash: hash,
            };
            let want = *kind < 6 && price.0 <= t.n[2].0 && gas.0 <= t.n[3].0;
            let got = signed.clone().try_finalize(receipt.clone());
            ensure_eq!(got.is_ok(), want, "accepting receipt {receipt:?} for {t:?}");
            if let Ok(f) = got {
                ensure!(f.transaction() == signed.transaction(), "another transaction");
                ensure!(*f.transaction_hash() == hash && *f.block_number() == receipt.block_number && *f.transaction_status() == receipt.status, "receipt fields");
                ensure!(*f.destination() == request(t).destination && *f.transaction_amount() == request(t).amount && f.transaction_data() == t.data, "transaction fields");
                let fee = &price.0 * &gas.0;
                if fee <= crate::max256() {
                    ensure_eq!(hex::encode(f.effective_transaction_fee().to_be_bytes()), hex::encode(U(fee).be32()), "fee paid");
                }
            }
            Ok(Info::nontrivial(*kind < 6).label_if(want, "accepted"))
        },
    );
}
