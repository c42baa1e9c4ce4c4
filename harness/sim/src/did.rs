//! The published interface (evm_minter.did): its types, values of them, and whether an answer is a value of them.
use crate::world::{mix, Method};
use candid::types::value::{IDLArgs, IDLField, IDLValue, VariantValue};
use candid::types::{Field, Label, Type, TypeEnv, TypeInner};
use candid::{Int, Nat, Principal};
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Did {
    pub env: TypeEnv,
    pub methods: BTreeMap<String, (Vec<Type>, Vec<Type>)>,
}

struct P {
    toks: Vec<String>,
    at: usize,
}
impl P {
    fn new(text: &str) -> P {
        let mut toks = vec![];
        let c: Vec<char> = text.chars().collect();
        let mut i = 0;
        while i < c.len() {
            if c[i].is_whitespace() {
                i += 1;
            } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            } else if c[i] == '"' {
                let j = (i + 1..c.len()).find(|j| c[*j] == '"').expect("closing quote");
                toks.push(c[i + 1..j].iter().collect());
                i = j + 1;
            } else if c[i] == '-' && c.get(i + 1) == Some(&'>') {
                toks.push("->".into());
                i += 2;
            } else if c[i].is_alphanumeric() || c[i] == '_' {
                let j = (i..c.len()).find(|j| !c[*j].is_alphanumeric() && c[*j] != '_').unwrap_or(c.len());
                toks.push(c[i..j].iter().collect());
                i = j;
            } else {
                toks.push(c[i].to_string());
                i += 1;
            }
        }
        P { toks, at: 0 }
    }
    fn peek(&self) -> &str {
        self.toks.get(self.at).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> String {
        self.at += 1;
        self.toks[self.at - 1].clone()
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.peek() == t {
            self.at += 1;
            return true;
        }
        false
    }
    fn want(&mut self, t: &str) {
        assert!(self.eat(t), "{t} expected in the interface file, found {}", self.peek());
    }
    fn ty(&mut self) -> Type {
        let t = self.next();
        match t.as_str() {
            "null" => TypeInner::Null,
            "bool" => TypeInner::Bool,
            "nat" => TypeInner::Nat,
            "int" => TypeInner::Int,
            "nat8" => TypeInner::Nat8,
            "nat16" => TypeInner::Nat16,
            "nat32" => TypeInner::Nat32,
            "nat64" => TypeInner::Nat64,
            "int8" => TypeInner::Int8,
            "int16" => TypeInner::Int16,
            "int32" => TypeInner::Int32,
            "int64" => TypeInner::Int64,
            "float32" => TypeInner::Float32,
            "float64" => TypeInner::Float64,
            "text" => TypeInner::Text,
            "reserved" => TypeInner::Reserved,
            "empty" => TypeInner::Empty,
            "principal" => TypeInner::Principal,
            "blob" => TypeInner::Vec(TypeInner::Nat8.into()),
            "opt" => TypeInner::Opt(self.ty()),
            "vec" => TypeInner::Vec(self.ty()),
            "record" => TypeInner::Record(self.fields(false)),
            "variant" => TypeInner::Variant(self.fields(true)),
            _ => TypeInner::Var(t),
        }
        .into()
    }
    fn fields(&mut self, variant: bool) -> Vec<Field> {
        self.want("{");
        let mut v = vec![];
        while !self.eat("}") {
            let unnamed = !variant && self.toks.get(self.at + 1).map(|s| s.as_str()) != Some(":");
            let (id, ty) = if unnamed {
                (Label::Unnamed(v.len() as u32), self.ty())
            } else {
                let name = self.next();
                let ty = if self.eat(":") { self.ty() } else { TypeInner::Null.into() };
                (Label::Named(name), ty)
            };
            v.push(Field { id: Rc::new(id), ty });
            if !self.eat(";") {
                self.want("}");
                break;
            }
        }
        v.sort_by_key(|f| f.id.get_id());
        v
    }
    fn args(&mut self) -> Vec<Type> {
        self.want("(");
        let mut v = vec![];
        while !self.eat(")") {
            if self.toks.get(self.at + 1).map(|s| s.as_str()) == Some(":") {
                self.at += 2;
            }
            v.push(self.ty());
            self.eat(",");
        }
        v
    }
}

impl Did {
    pub fn parse(text: &str) -> Did {
        let mut p = P::new(text);
        let mut env = TypeEnv::new();
        let mut methods = BTreeMap::new();
        while p.at < p.toks.len() {
            if p.eat("type") {
                let name = p.next();
                p.want("=");
                let ty = p.ty();
                env.0.insert(name, ty);
                p.eat(";");
                continue;
            }
            p.want("service");
            if p.peek() != ":" {
                p.next();
            }
            p.want(":");
            if p.peek() == "(" {
                let a = p.args();
                p.want("->");
                methods.insert("init".to_string(), (a, vec![]));
            }
            p.want("{");
            while !p.eat("}") {
                let name = p.next();
                p.want(":");
                let a = p.args();
                p.want("->");
                let r = p.args();
                while matches!(p.peek(), "query" | "composite_query" | "oneway") {
                    p.next();
                }
                p.eat(";");
                methods.insert(name, (a, r));
            }
            p.eat(";");
        }
        Did { env, methods }
    }
    pub fn published() -> Did {
        Did::parse(include_str!("../../../build/ws/evm_minter.did"))
    }

    /// A value of the type; its parts follow from the seed.
    pub fn value(&self, t: &Type, seed: &mut u64) -> IDLValue {
        *seed = mix(*seed);
        let r = *seed;
        let t = self.env.trace_type(t).unwrap();
        match t.as_ref() {
            TypeInner::Null => IDLValue::Null,
            TypeInner::Bool => IDLValue::Bool(r & 1 == 1),
            TypeInner::Nat => IDLValue::Nat(match r % 6 {
                0 => Nat::from(r >> 60),
                1 => Nat::from(0u8),
                2 => Nat::from(r >> 8),
                3 => Nat::from(r) * Nat::from(mix(r)),
                4 => Nat::from(r) * Nat::from(u128::MAX),
                _ => Nat::from(u128::MAX) * Nat::from(u128::MAX) * Nat::from(r),
            }),
            TypeInner::Int => IDLValue::Int(Int::from(r as i64)),
            TypeInner::Nat8 => IDLValue::Nat8(r as u8),
            TypeInner::Nat16 => IDLValue::Nat16(r as u16),
            TypeInner::Nat32 => IDLValue::Nat32(r as u32),
            TypeInner::Nat64 => IDLValue::Nat64(if r & 256 == 0 { r >> 56 } else { mix(r) }),
            TypeInner::Text => IDLValue::Text(match r % 5 {
                0 => String::new(),
                1 => format!("0x{}", hex::encode(&[r as u8; 20])),
                2 => format!("0x{}", hex::encode(mix(r).to_be_bytes())),
                3 => "é\u{1F600}\"\\\n".repeat((r >> 8) as usize % 9),
                _ => format!("{r}"),
            }),
            TypeInner::Principal => IDLValue::Principal(Principal::from_slice(&[r as u8; 29][..(r >> 8) as usize % 30])),
            TypeInner::Reserved => IDLValue::Reserved,
            TypeInner::Opt(x) => {
                if r & 16 == 0 {
                    IDLValue::None
                } else {
                    IDLValue::Opt(Box::new(self.value(x, seed)))
                }
            }
            // blobs are subaccounts
            TypeInner::Vec(x) if matches!(x.as_ref(), TypeInner::Nat8) => IDLValue::Vec((0..32).map(|i| IDLValue::Nat8((r >> (i % 8)) as u8)).collect()),
            TypeInner::Vec(x) => IDLValue::Vec((0..r % 4).map(|_| self.value(x, seed)).collect()),
            TypeInner::Record(fs) => IDLValue::Record(fs.iter().map(|f| IDLField { id: (*f.id).clone(), val: self.value(&f.ty, seed) }).collect()),
            TypeInner::Variant(fs) => {
                let i = r as usize % fs.len();
                IDLValue::Variant(VariantValue(Box::new(IDLField { id: (*fs[i].id).clone(), val: self.value(&fs[i].ty, seed) }), i as u64))
            }
            t => panic!("no values of {t:?}"),
        }
    }
    pub fn random_args(&self, name: &str, seed: u64) -> (Vec<u8>, String) {
        self.random(&self.methods[name].0, seed)
    }
    pub fn random_answer(&self, name: &str, seed: u64) -> (Vec<u8>, String) {
        self.random(&self.methods[name].1, seed)
    }
    fn random(&self, types: &[Type], mut seed: u64) -> (Vec<u8>, String) {
        let args = IDLArgs { args: types.iter().map(|t| self.value(t, &mut seed)).collect() };
        (args.to_bytes_with_types(&self.env, types).unwrap(), format!("{args}"))
    }

    /// The answer as its published type shows it.
    pub fn reading(&self, name: &str, bytes: &[u8]) -> Option<String> {
        IDLArgs::from_bytes_with_types(bytes, &self.env, &self.methods.get(name)?.1).ok().map(|a| format!("{a:?}"))
    }
    /// Is the answer a value of the published type, with nothing published lost on the way?
    pub fn answer(&self, name: &str, bytes: &[u8]) -> Result<(), String> {
        let types = &self.methods.get(name).ok_or(format!("{name} is not in the interface"))?.1;
        let typed = IDLArgs::from_bytes_with_types(bytes, &self.env, types).map_err(|e| format!("the answer of {name} is not a value of its published type: {e}"))?;
        let raw = IDLArgs::from_bytes(bytes).map_err(|e| format!("the answer of {name} does not decode: {e}"))?;
        if raw.args.len() < typed.args.len() {
            return Err(format!("the answer of {name} has {} values instead of {}", raw.args.len(), typed.args.len()));
        }
        for (t, r) in typed.args.iter().zip(&raw.args) {
            kept(t, r).map_err(|e| format!("the answer of {name} read by its published type: {e}"))?;
        }
        Ok(())
    }
}

/// The published view `t` of the raw value `r` shows all there is.
fn kept(t: &IDLValue, r: &IDLValue) -> Result<(), String> {
    use IDLValue::*;
    let absent = |v: &IDLValue| matches!(v, None | Null | Reserved);
    match (t, r) {
        (Reserved, _) => Ok(()),
        (None, x) if absent(x) => Ok(()),
        (None, x) => Err(format!("{x:?} is lost")),
        (Opt(a), Opt(b)) => kept(a, b),
        (Opt(a), b) => kept(a, b),
        (Record(a), Record(b)) => {
            for f in a {
                match b.iter().find(|g| g.id.get_id() == f.id.get_id()) {
                    Some(g) => kept(&f.val, &g.val).map_err(|e| format!("{}: {e}", f.id))?,
                    Option::None => return Err(format!("field {} is missing", f.id)),
                }
            }
            Ok(())
        }
        (Variant(a), Variant(b)) if a.0.id.get_id() == b.0.id.get_id() => kept(&a.0.val, &b.0.val),
        (Vec(a), Vec(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(a, b)| kept(a, b)),
        (a, b) if format!("{a:?}") == format!("{b:?}") => Ok(()),
        (a, b) => Err(format!("{b:?} reads as {a:?}")),
    }
}

/// The published endpoints, by the name they are called with.
pub const ENDPOINTS: &[(&str, Method, bool)] = &[
    ("add_erc20_token", Method::add_erc20_token, false),
    ("check_new_deposits", Method::check_new_deposits, false),
    ("eip_1559_transaction_price", Method::price, true),
    ("get_canister_status", Method::get_canister_status, false),
    ("get_events", Method::get_events, true),
    ("get_minter_info", Method::get_minter_info, true),
    ("icrc28_trusted_origins", Method::icrc28_trusted_origins, false),
    ("minter_address", Method::minter_address, false),
    ("request_scraping_logs", Method::request_scraping_logs, false),
    ("retrieve_witdrawal_status", Method::retrieve_witdrawal_status, false),
    ("smart_contract_address", Method::smart_contract_address, true),
    ("withdraw_erc20", Method::withdraw_erc20, false),
    ("withdraw_native_token", Method::withdraw_native_token, false),
    ("withdrawal_status", Method::withdrawal_status, true),
];
pub fn name(m: Method) -> Option<&'static str> {
    ENDPOINTS.iter().find(|e| e.1 == m).map(|e| e.0)
}
