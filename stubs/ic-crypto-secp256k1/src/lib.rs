use k256::ecdsa::signature::hazmat::{PrehashSigner, PrehashVerifier};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum KeyDecodingError {
    InvalidKeyEncoding(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RecoveryError {
    SignatureParseError(String),
    WrongParameters(String),
}

/// A parity/reduction pair identifying the public key of a signature.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct RecoveryId {
    recid: k256::ecdsa::RecoveryId,
}

impl RecoveryId {
    pub const fn is_y_odd(&self) -> bool {
        self.recid.is_y_odd()
    }
    pub const fn is_x_reduced(&self) -> bool {
        self.recid.is_x_reduced()
    }
    pub const fn to_byte(&self) -> u8 {
        self.recid.to_byte()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PublicKey {
    key: k256::ecdsa::VerifyingKey,
}

impl PublicKey {
    pub fn deserialize_sec1(bytes: &[u8]) -> Result<Self, KeyDecodingError> {
        k256::ecdsa::VerifyingKey::from_sec1_bytes(bytes)
            .map(|key| Self { key })
            .map_err(|e| KeyDecodingError::InvalidKeyEncoding(format!("{e:?}")))
    }
    pub fn serialize_sec1(&self, compressed: bool) -> Vec<u8> {
        self.key.to_encoded_point(compressed).as_bytes().to_vec()
    }
    /// Rejects malleable (high s) signatures, as the original does.
    pub fn verify_signature_prehashed(&self, digest: &[u8], signature: &[u8]) -> bool {
        let Ok(sig) = k256::ecdsa::Signature::from_slice(signature) else {
            return false;
        };
        if sig.normalize_s().is_some() {
            return false;
        }
        self.key.verify_prehash(digest, &sig).is_ok()
    }
    pub fn verify_signature_prehashed_with_malleability(&self, digest: &[u8], signature: &[u8]) -> bool {
        let Ok(sig) = k256::ecdsa::Signature::from_slice(signature) else {
            return false;
        };
        let sig = sig.normalize_s().unwrap_or(sig);
        self.key.verify_prehash(digest, &sig).is_ok()
    }
    pub fn try_recovery_from_digest(&self, digest: &[u8], signature: &[u8]) -> Result<RecoveryId, RecoveryError> {
        let signature = k256::ecdsa::Signature::from_slice(signature)
            .map_err(|e| RecoveryError::SignatureParseError(e.to_string()))?;
        k256::ecdsa::RecoveryId::trial_recovery_from_prehash(&self.key, digest, &signature)
            .map(|recid| RecoveryId { recid })
            .map_err(|e| RecoveryError::WrongParameters(e.to_string()))
    }
}

#[derive(Clone)]
pub struct PrivateKey {
    key: k256::ecdsa::SigningKey,
}

impl PrivateKey {
    pub fn deserialize_sec1(bytes: &[u8]) -> Result<Self, KeyDecodingError> {
        k256::ecdsa::SigningKey::from_slice(bytes)
            .map(|key| Self { key })
            .map_err(|e| KeyDecodingError::InvalidKeyEncoding(format!("{e:?}")))
    }
    pub fn serialize_sec1(&self) -> Vec<u8> {
        self.key.to_bytes().to_vec()
    }
    pub fn public_key(&self) -> PublicKey {
        PublicKey { key: *self.key.verifying_key() }
    }
    pub fn sign_digest_with_ecdsa(&self, digest: &[u8; 32]) -> [u8; 64] {
        let sig: k256::ecdsa::Signature = self.key.sign_prehash(digest).expect("failed to sign digest");
        let sig = sig.normalize_s().unwrap_or(sig);
        sig.to_bytes().into()
    }
}
