//! RLP, and the threshold keys a subnet gives to canisters.
use crate::keccak256;
use candid::{CandidType, Deserialize as CandidDeserialize, Principal};

/// An RLP value and its canonical encoding (Ethereum yellow paper, appendix B).
pub enum Rlp {
    Bytes(Vec<u8>),
    List(Vec<Rlp>),
}
impl Rlp {
    pub fn int(be: &[u8]) -> Rlp {
        Rlp::Bytes(be.iter().copied().skip_while(|b| *b == 0).collect())
    }
    fn head(short: u8, n: usize) -> Vec<u8> {
        if n < 56 {
            vec![short + n as u8]
        } else {
            let len: Vec<u8> = n.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect();
            [vec![short + 55 + len.len() as u8], len].concat()
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Rlp::Bytes(b) if b.len() == 1 && b[0] < 0x80 => b.clone(),
            Rlp::Bytes(b) => [Self::head(0x80, b.len()), b.clone()].concat(),
            Rlp::List(l) => {
                let body: Vec<u8> = l.iter().flat_map(|x| x.encode()).collect();
                [Self::head(0xc0, body.len()), body].concat()
            }
        }
    }
}

#[derive(CandidType, CandidDeserialize, Debug)]
pub struct KeyId {
    pub curve: Curve,
    pub name: String,
}
#[allow(non_camel_case_types)]
#[derive(CandidType, CandidDeserialize, Debug, PartialEq)]
pub enum Curve {
    secp256k1,
}
#[derive(CandidType, CandidDeserialize, Debug)]
pub struct PublicKeyArg {
    pub canister_id: Option<Principal>,
    pub derivation_path: Vec<serde_bytes::ByteBuf>,
    pub key_id: KeyId,
}
#[derive(CandidType, CandidDeserialize, Debug)]
pub struct PublicKeyReply {
    pub public_key: serde_bytes::ByteBuf,
    pub chain_code: serde_bytes::ByteBuf,
}
#[derive(CandidType, CandidDeserialize, Debug)]
pub struct SignArg {
    pub message_hash: serde_bytes::ByteBuf,
    pub derivation_path: Vec<serde_bytes::ByteBuf>,
    pub key_id: KeyId,
}
#[derive(CandidType, CandidDeserialize, Debug)]
pub struct SignReply {
    pub signature: serde_bytes::ByteBuf,
}

/// The key a canister gets from the subnet for one key name and derivation path.
pub fn subnet_key(seed: &[u8], name: &str, path: &[serde_bytes::ByteBuf]) -> k256::ecdsa::SigningKey {
    let mut material = [seed, name.as_bytes()].concat();
    for p in path {
        material.extend((p.len() as u32 + 1).to_be_bytes());
        material.extend(p.iter());
    }
    loop {
        let h = keccak256(&material);
        if let Ok(k) = k256::ecdsa::SigningKey::from_slice(&h) {
            return k;
        }
        material.push(0);
    }
}
pub fn address_of(k: &k256::ecdsa::VerifyingKey) -> [u8; 20] {
    let p = k.to_encoded_point(false);
    keccak256(&p.as_bytes()[1..])[12..].try_into().unwrap()
}
