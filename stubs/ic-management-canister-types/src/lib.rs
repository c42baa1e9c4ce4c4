use candid::CandidType;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;

#[derive(Clone, Debug, Default, PartialEq, Eq, CandidType, Serialize, Deserialize)]
#[serde(transparent)]
pub struct DerivationPath(Vec<ByteBuf>);

impl DerivationPath {
    pub fn new(path: Vec<ByteBuf>) -> Self {
        Self(path)
    }
    pub fn get(&self) -> &Vec<ByteBuf> {
        &self.0
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, CandidType, Serialize, Deserialize)]
pub enum EcdsaCurve {
    #[serde(rename = "secp256k1")]
    Secp256k1,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, CandidType, Serialize, Deserialize)]
pub struct EcdsaKeyId {
    pub curve: EcdsaCurve,
    pub name: String,
}

#[derive(Clone, Debug, PartialEq, Eq, CandidType, Deserialize)]
pub struct SignWithECDSAArgs {
    pub message_hash: [u8; 32],
    pub derivation_path: DerivationPath,
    pub key_id: EcdsaKeyId,
}

#[derive(Clone, Debug, PartialEq, Eq, CandidType, Deserialize)]
pub struct SignWithECDSAReply {
    #[serde(with = "serde_bytes")]
    pub signature: Vec<u8>,
}
