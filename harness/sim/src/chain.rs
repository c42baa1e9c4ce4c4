//! The EVM chain: blocks, deposit logs, the minter's account, its transactions.
use crate::{n, Addr, N};
use evm_rpc_types::{Hex, Hex20, Hex32, LogEntry, Nat256};
use std::collections::BTreeMap;
use kit::keccak256;
use kit::keys::Rlp;

/// Topic of the helper contract's deposit event.
pub const DEPOSIT_TOPIC: &str = "deaddf8708b62ae1bf8ec4693b523254aa961b2da6bc5be57f3188ee784d6275";

#[derive(Clone, Debug, PartialEq)]
pub struct Tx {
    pub raw: Vec<u8>,
    pub hash: [u8; 32],
    pub chain: N,
    pub nonce: u64,
    pub prio: N,
    pub max: N,
    pub gas: N,
    pub to: Addr,
    pub value: N,
    pub data: Vec<u8>,
    pub access: usize,
    pub signer: Option<Addr>,
}

/// Decodes a signed type-2 transaction; an error says why it is not one in canonical form.
pub fn decode_tx(raw: &[u8]) -> Result<Tx, String> {
    if raw.first() != Some(&2) {
        return Err("not a type-2 transaction".into());
    }
    let r = rlp::Rlp::new(&raw[1..]);
    let count = r.item_count().map_err(|e| format!("bad RLP: {e}"))?;
    if count != 12 {
        return Err(format!("{count} fields instead of 12"));
    }
    let bytes = |i: usize| -> Result<Vec<u8>, String> { Ok(r.at(i).and_then(|x| x.data().map(|d| d.to_vec())).map_err(|e| format!("field {i}: {e}"))?) };
    let access = r.at(8).and_then(|x| x.item_count()).map_err(|e| format!("access list: {e}"))?;
    if access != 0 {
        return Err("non-empty access list".into());
    }
    let mut unsigned = vec![];
    let mut all = vec![];
    for i in 0..12 {
        let item = || -> Result<Rlp, String> { Ok(if i == 8 { Rlp::List(vec![]) } else if i == 5 || i == 7 { Rlp::Bytes(bytes(i)?) } else { Rlp::int(&bytes(i)?) }) };
        all.push(item()?);
        if i < 9 {
            unsigned.push(item()?);
        }
    }
    if [vec![2], Rlp::List(all).encode()].concat() != raw {
        return Err("not canonically encoded".into());
    }
    let to: Addr = bytes(5)?.try_into().map_err(|_| "recipient is not an address".to_string())?;
    let big = |i: usize| -> Result<N, String> { Ok(N::from_bytes_be(&bytes(i)?)) };
    let digest = keccak256(&[vec![2], Rlp::List(unsigned).encode()].concat());
    let parity = bytes(9)?;
    let (rr, ss) = (bytes(10)?, bytes(11)?);
    let signer = (|| {
        let mut sig = [0u8; 64];
        if rr.len() > 32 || ss.len() > 32 {
            return None;
        }
        sig[32 - rr.len()..32].copy_from_slice(&rr);
        sig[64 - ss.len()..].copy_from_slice(&ss);
        let id = match parity.as_slice() {
            [] => 0,
            [1] => 1,
            _ => return None,
        };
        let sig = k256::ecdsa::Signature::from_slice(&sig).ok()?;
        if sig.normalize_s().is_some() {
            return None;
        }
        let id = k256::ecdsa::RecoveryId::from_byte(id)?;
        let key = k256::ecdsa::VerifyingKey::recover_from_prehash(&digest, &sig, id).ok()?;
        Some(kit::keys::address_of(&key))
    })();
    let nonce = big(1)?;
    Ok(Tx {
        hash: keccak256(raw),
        raw: raw.to_vec(),
        chain: big(0)?,
        nonce: u64::try_from(&nonce).map_err(|_| "nonce above 64 bits".to_string())?,
        prio: big(2)?,
        max: big(3)?,
        gas: big(4)?,
        to,
        value: big(6)?,
        data: bytes(7)?,
        access,
        signer,
    })
}

/// Recipient and amount of an ERC-20 `transfer` call.
pub fn decode_transfer(data: &[u8]) -> Option<(Addr, N)> {
    if data.len() != 68 || data[..4] != [0xa9, 0x05, 0x9c, 0xbb] || data[4..16] != [0; 12] {
        return None;
    }
    Some((data[16..36].try_into().unwrap(), N::from_bytes_be(&data[36..])))
}

#[derive(Clone, Debug)]
pub struct Mined {
    pub tx: Tx,
    pub block: u64,
    pub success: bool,
    pub gas_used: N,
    pub price: N,
}

/// A deposit made on chain through the helper contract.
#[derive(Clone, Debug)]
pub struct Deposit {
    pub hash: [u8; 32],
    pub index: u64,
    pub block: u64,
    pub token: Addr,
    pub from: Addr,
    pub value: N,
    pub owner: candid::Principal,
    pub sub: Option<[u8; 32]>,
    /// The log is well formed, confirmed and not removed.
    pub valid: bool,
    pub helper: Addr,
}

pub struct Chain {
    pub id: u64,
    pub head: u64,
    pub base: u64,
    pub prio: u64,
    pub lag_safe: u64,
    pub lag_final: u64,
    pub max_logs: usize,
    pub helper: Addr,
    pub minter: Addr,
    pub first_nonce: u64,
    pub nonce: u64,
    pub native: N,
    pub tokens: BTreeMap<Addr, N>,
    pub deposits: Vec<Deposit>,
    pub logs: Vec<(u64, LogEntry)>,
    /// All versions the network accepted, per nonce.
    pub pool: BTreeMap<u64, Vec<Tx>>,
    pub mined: Vec<Mined>,
    pub salt: u64,
}

pub fn word(b: &[u8]) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[32 - b.len()..].copy_from_slice(b);
    w
}
pub fn word_n(v: &N) -> [u8; 32] {
    word(&v.to_bytes_be())
}

impl Chain {
    pub fn finalized(&self) -> u64 {
        self.head.saturating_sub(self.lag_final)
    }
    pub fn safe(&self) -> u64 {
        self.head.saturating_sub(self.lag_safe)
    }
    /// Nonces of the minter's account used at or below a block.
    pub fn nonce_at(&self, block: u64) -> u64 {
        self.first_nonce + self.mined.iter().filter(|m| m.block <= block).count() as u64
    }
    pub fn block_hash(&self, block: u64) -> [u8; 32] {
        keccak256(&[b"block".as_slice(), &block.to_be_bytes(), &self.salt.to_be_bytes()].concat())
    }

    /// Adds a deposit log to the next block. `bad` selects a malformation (0: none).
    #[allow(clippy::too_many_arguments)]
    pub fn deposit(&mut self, token: Addr, from: Addr, value: N, owner: candid::Principal, sub: Option<[u8; 32]>, bad: u8, same_tx: bool) -> usize {
        let block = self.head + 1;
        let in_block = self.logs.iter().filter(|(b, _)| *b == block).count() as u64;
        let hash = match self.deposits.last() {
            Some(d) if same_tx && d.block == block => d.hash,
            _ => keccak256(&[b"deposit".as_slice(), &(self.deposits.len() as u64).to_be_bytes(), &self.salt.to_be_bytes()].concat()),
        };
        let mut principal = vec![owner.as_slice().len() as u8];
        principal.extend_from_slice(owner.as_slice());
        principal.resize(32, 0);
        let mut topics: Vec<[u8; 32]> = vec![hex::decode(DEPOSIT_TOPIC).unwrap().try_into().unwrap(), word(&token), word_n(&value), principal.try_into().unwrap()];
        let mut data = [word(&from), sub.unwrap_or([0; 32])].concat();
        let mut removed = false;
        match bad {
            1 => removed = true,
            2 => topics[3] = [30; 32],
            3 => topics.truncate(3),
            4 => data.truncate(33),
            5 => data.push(7),
            6 => topics[3][0] = 0xff,
            _ => {}
        }
        self.logs.push((
            block,
            LogEntry {
                address: Hex20::from(self.helper),
                topics: topics.into_iter().map(Hex32::from).collect(),
                data: Hex::from(data),
                block_number: Some(Nat256::from(block)),
                transaction_hash: Some(Hex32::from(hash)),
                transaction_index: Some(Nat256::from(in_block)),
                block_hash: Some(Hex32::from(self.block_hash(block))),
                log_index: Some(Nat256::from(in_block)),
                removed,
            },
        ));
        self.deposits.push(Deposit { hash, index: in_block, block, token, from, value: value.clone(), owner, sub, valid: bad == 0, helper: self.helper });
        if !removed {
            if token == [0; 20] {
                self.native += value;
            } else {
                *self.tokens.entry(token).or_default() += value;
            }
        }
        self.deposits.len() - 1
    }

    /// eth_getLogs with the filter semantics of Ethereum (an empty alternative list matches everything).
    pub fn logs(&self, from: u64, to: u64, addresses: &[Hex20], topics: &[Vec<Hex32>]) -> Vec<LogEntry> {
        self.logs
            .iter()
            .filter(|(b, e)| {
                *b >= from
                    && *b <= to
                    && *b <= self.head
                    && (addresses.is_empty() || addresses.contains(&e.address))
                    && topics.iter().enumerate().all(|(i, alt)| e.topics.len() > i && (alt.is_empty() || alt.contains(&e.topics[i])))
            })
            .map(|(_, e)| e.clone())
            .collect()
    }

    /// A deposit that never happened, as a dishonest provider may report it.
    pub fn fake_log(&self, block: u64, salt: u64, addresses: &[Hex20]) -> LogEntry {
        let owner = candid::Principal::from_slice(&[9; 10]);
        let mut principal = vec![owner.as_slice().len() as u8];
        principal.extend_from_slice(owner.as_slice());
        principal.resize(32, 0);
        let topics: Vec<[u8; 32]> = vec![hex::decode(DEPOSIT_TOPIC).unwrap().try_into().unwrap(), [0; 32], word(&[1, 0, 0, 0, 0, 0, 0, 0]), principal.try_into().unwrap()];
        LogEntry {
            address: addresses.first().cloned().unwrap_or(Hex20::from(self.helper)),
            topics: topics.into_iter().map(Hex32::from).collect(),
            data: Hex::from(vec![0; 64]),
            block_number: Some(Nat256::from(block)),
            transaction_hash: Some(Hex32::from(keccak256(&salt.to_be_bytes()))),
            transaction_index: Some(Nat256::from(0u8)),
            block_hash: Some(Hex32::from(self.block_hash(block))),
            log_index: Some(Nat256::from(99u8)),
            removed: false,
        }
    }

    /// Submission of a transaction to the network.
    pub fn submit(&mut self, tx: &Tx) -> Submitted {
        if tx.signer != Some(self.minter) || tx.chain != n(self.id as u128) || tx.prio > tx.max {
            return Submitted::Invalid;
        }
        if tx.nonce < self.nonce {
            return Submitted::NonceTooLow;
        }
        if &tx.gas * &tx.max + &tx.value > self.native {
            return Submitted::InsufficientFunds;
        }
        let v = self.pool.entry(tx.nonce).or_default();
        if v.iter().any(|t| t.hash == tx.hash) {
            return Submitted::Known;
        }
        v.push(tx.clone());
        Submitted::Accepted
    }

    /// One more block, with up to `max_txs` of the minter's transactions. `fail` makes the i-th fail, `pick` selects the version.
    pub fn mine(&mut self, max_txs: usize, fail: u8, pick: u8, gas: u8) {
        self.head += 1;
        for i in 0..max_txs {
            let Some(versions) = self.pool.get(&self.nonce) else { break };
            let base = n(self.base as u128);
            let ok: Vec<&Tx> = versions.iter().filter(|t| t.max >= base && &t.gas * &t.max + &t.value <= self.native).collect();
            if ok.is_empty() {
                break;
            }
            let tx = ok[(pick as usize + i) % ok.len()].clone();
            let price = tx.max.clone().min(base + &tx.prio);
            let mut success = (fail >> (i % 8)) & 1 == 0;
            let mut gas_used = n(21_000).min(tx.gas.clone());
            if !tx.data.is_empty() {
                gas_used = (n(21_000) + n(gas as u128 * 170)).min(tx.gas.clone());
                match decode_transfer(&tx.data) {
                    Some((_, amount)) if success => {
                        let have = self.tokens.entry(tx.to).or_default();
                        if *have >= amount {
                            *have -= amount;
                        } else {
                            success = false;
                        }
                    }
                    _ => success = false,
                }
            }
            self.native -= &gas_used * &price;
            if success {
                self.native -= &tx.value;
            }
            self.nonce += 1;
            self.mined.push(Mined { tx, block: self.head, success, gas_used, price });
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Submitted {
    Accepted,
    Known,
    NonceTooLow,
    InsufficientFunds,
    Invalid,
}
