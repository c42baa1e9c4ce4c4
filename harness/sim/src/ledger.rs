//! An ICRC-1/2 ledger whose minting account is the minter's default account.
use crate::{n, N};
use candid::{Nat, Principal};
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::{TransferArg, TransferError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Mint,
    Burn,
    Transfer,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub index: u64,
    pub kind: Kind,
    pub from: Account,
    pub to: Account,
    pub amount: N,
    pub fee: N,
    pub memo: Option<Vec<u8>>,
    /// Call context of the minter that made it.
    pub ctx: u64,
}

pub struct Ledger {
    pub id: Principal,
    pub fee: N,
    pub minter: Principal,
    pub balances: BTreeMap<Account, N>,
    pub allowances: BTreeMap<(Account, Account), N>,
    pub supply: N,
    pub first: u64,
    pub entries: Vec<Entry>,
}

impl Ledger {
    pub fn new(id: Principal, fee: N, minter: Principal, first: u64) -> Self {
        Ledger { id, fee, minter, balances: BTreeMap::new(), allowances: BTreeMap::new(), supply: n(0), first, entries: vec![] }
    }
    /// Number of the next block.
    pub fn next(&self) -> u64 {
        self.first + self.entries.len() as u64
    }
    /// So many transfers of nothing among strangers.
    pub fn others(&mut self, k: u64) {
        let a = Account { owner: Principal::from_slice(&[9, 9, 9]), subaccount: None };
        for _ in 0..k {
            self.push(Kind::Transfer, a, a, n(0), n(0), None, u64::MAX - 1);
        }
    }
    pub fn balance(&self, a: &Account) -> N {
        self.balances.get(a).cloned().unwrap_or_default()
    }
    fn minting(&self) -> Account {
        Account { owner: self.minter, subaccount: None }
    }
    fn push(&mut self, kind: Kind, from: Account, to: Account, amount: N, fee: N, memo: Option<Vec<u8>>, ctx: u64) -> u64 {
        let index = self.first + self.entries.len() as u64;
        self.entries.push(Entry { index, kind, from, to, amount, fee, memo, ctx });
        index
    }

    pub fn transfer(&mut self, caller: Principal, a: TransferArg, ctx: u64) -> Result<u64, TransferError> {
        let from = Account { owner: caller, subaccount: a.from_subaccount };
        let memo = a.memo.map(|m| m.0.into_vec());
        if memo.as_ref().map_or(false, |m| m.len() > 80) {
            return Err(TransferError::GenericError { error_code: Nat::from(3u8), message: "memo too long".into() });
        }
        if from == self.minting() {
            if a.to == from {
                return Err(TransferError::GenericError { error_code: Nat::from(1u8), message: "mint to the minting account".into() });
            }
            if a.fee.as_ref().map_or(false, |f| f.0 != n(0)) {
                return Err(TransferError::BadFee { expected_fee: Nat::from(0u8) });
            }
            *self.balances.entry(a.to).or_default() += &a.amount.0;
            self.supply += &a.amount.0;
            return Ok(self.push(Kind::Mint, from, a.to, a.amount.0, n(0), memo, ctx));
        }
        let burn = a.to == self.minting();
        let fee = if burn { n(0) } else { self.fee.clone() };
        if burn && (a.amount.0 == n(0) || a.amount.0 < self.fee.clone().min(self.balance(&from))) {
            return Err(TransferError::BadBurn { min_burn_amount: Nat(self.fee.clone()) });
        }
        if a.fee.as_ref().map_or(false, |f| f.0 != fee) {
            return Err(TransferError::BadFee { expected_fee: Nat(fee) });
        }
        self.move_tokens(burn, from, a.to, a.amount.0, fee, memo, ctx).map_err(|b| TransferError::InsufficientFunds { balance: Nat(b) })
    }

    fn move_tokens(&mut self, burn: bool, from: Account, to: Account, amount: N, fee: N, memo: Option<Vec<u8>>, ctx: u64) -> Result<u64, N> {
        let have = self.balance(&from);
        if have < &amount + &fee {
            return Err(have);
        }
        self.balances.insert(from, have - &amount - &fee);
        self.supply -= &fee;
        if burn {
            self.supply -= &amount;
        } else {
            *self.balances.entry(to).or_default() += &amount;
        }
        Ok(self.push(if burn { Kind::Burn } else { Kind::Transfer }, from, to, amount, fee, memo, ctx))
    }

    pub fn transfer_from(&mut self, caller: Principal, a: TransferFromArgs, ctx: u64) -> Result<u64, TransferFromError> {
        let spender = Account { owner: caller, subaccount: a.spender_subaccount };
        let memo = a.memo.map(|m| m.0.into_vec());
        if memo.as_ref().map_or(false, |m| m.len() > 80) {
            return Err(TransferFromError::GenericError { error_code: Nat::from(3u8), message: "memo too long".into() });
        }
        if a.from == self.minting() {
            return Err(TransferFromError::GenericError { error_code: Nat::from(2u8), message: "the minting account cannot delegate mints".into() });
        }
        let burn = a.to == self.minting();
        let fee = if burn { n(0) } else { self.fee.clone() };
        if burn && (a.amount.0 == n(0) || a.amount.0 < self.fee.clone().min(self.balance(&a.from))) {
            return Err(TransferFromError::BadBurn { min_burn_amount: Nat(self.fee.clone()) });
        }
        if a.fee.as_ref().map_or(false, |f| f.0 != fee) {
            return Err(TransferFromError::BadFee { expected_fee: Nat(fee) });
        }
        let key = (a.from, spender);
        let total = &a.amount.0 + &fee;
        if spender != a.from {
            let allowance = self.allowances.get(&key).cloned().unwrap_or_default();
            if allowance < total {
                return Err(TransferFromError::InsufficientAllowance { allowance: Nat(allowance) });
            }
        }
        let index = self.move_tokens(burn, a.from, a.to, a.amount.0, fee, memo, ctx).map_err(|b| TransferFromError::InsufficientFunds { balance: Nat(b) })?;
        if spender != a.from {
            *self.allowances.get_mut(&key).unwrap() -= total;
        }
        Ok(index)
    }
}
