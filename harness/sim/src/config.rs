//! C25: installing and upgrading with generated configurations, valid and not.
use crate::api::{self, MinterArg, UpgradeArg};
use crate::run::{new_world, on_thread, NETS};
use crate::world::*;
use crate::N;
use candid::{Encode, Nat, Principal};
use pbt::{ensure, Ctx, Info, Verdict};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use kit::{eip55, u256, U};

/// A number, possibly beyond 256 bits.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Num {
    v: U,
    over: bool,
}
impl Num {
    fn n(&self) -> N {
        let b = N::from_bytes_be(&self.v.be32());
        if self.over {
            b + (N::from(1u8) << 256)
        } else {
            b
        }
    }
    fn nat(&self) -> Nat {
        Nat(self.n())
    }
}
fn num() -> BoxedStrategy<Num> {
    (prop_oneof![4 => u256(), 2 => (0u64..1000).prop_map(|x| U(N::from(x)))], prop::bool::weighted(0.02)).prop_map(|(v, over)| Num { v, over }).boxed()
}
/// An amount and whether to make it not less than the other.
fn small() -> BoxedStrategy<Num> {
    prop_oneof![1 => (0u64..4), 6 => 0u64..100_000].prop_map(|x| Num { v: U(N::from(x)), over: false }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Init {
    net: u8,
    key: String,
    helper: Option<Text>,
    ledger: u8,
    tag: u8,
    min: Num,
    tf: Num,
    nonce: Num,
    scraped: Num,
    prio: Num,
    lsm: u8,
    dfee: Num,
    wfee: Num,
}
/// An address as text.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text {
    a: [u8; 20],
    form: u8,
}
impl Text {
    fn text(&self) -> String {
        let h = hex::encode(self.a);
        match self.form {
            0..=3 => eip55(&self.a),
            4 => format!("0x{h}"),
            5 => format!("0x{}", h.to_uppercase()),
            6 => h,
            7 => format!("0x{}", &h[2..]),
            8 => format!("0x{h}00"),
            9 => format!("0x{}zz", &h[2..]),
            10 => String::new(),
            _ => format!(" 0x{h}"),
        }
    }
    fn address(&self) -> Option<[u8; 20]> {
        (self.form <= 5).then_some(self.a)
    }
    fn valid(&self) -> bool {
        self.address().map_or(false, |a| a != [0; 20])
    }
}
fn address() -> BoxedStrategy<Text> {
    (prop_oneof![8 => any::<[u8; 20]>(), 1 => Just([0; 20]), 1 => (0usize..20).prop_map(|i| { let mut a = [0; 20]; a[i] = 1; a })], prop_oneof![12 => 0u8..6, 1 => 6u8..12]).prop_map(|(a, form)| Text { a, form }).boxed()
}
fn principal(k: u8) -> Principal {
    match k {
        0 => Principal::anonymous(),
        1 => Principal::management_canister(),
        2 => Principal::from_slice(&[4, 4]),
        k => Principal::from_slice(&[k; 10]),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Upg {
    nonce: Option<Num>,
    min: Option<Num>,
    helper: Option<Text>,
    tag: Option<u8>,
    scraped: Option<Num>,
    rpc: Option<u8>,
    tf: Option<Num>,
    prio: Option<Num>,
    dfee: Option<Num>,
    wfee: Option<Num>,
    /// 0: an upgrade argument; 1: none; 2: an init argument.
    kind: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    init: Init,
    ups: Vec<Upg>,
    /// Install with an upgrade argument.
    wrong_kind: bool,
}

/// The minimum withdrawal and the ledger fee, mostly the former not below the latter.
fn min_tf() -> BoxedStrategy<(Num, Num)> {
    (prop_oneof![2 => num(), 3 => small()], prop_oneof![1 => num(), 3 => small()], 0u8..10)
        .prop_map(|(a, b, k)| {
            let (lo, hi) = if a.n() <= b.n() { (a, b) } else { (b, a) };
            match k {
                0 => (lo, hi),
                1 => (hi.clone(), hi),
                2 => {
                    let d = &hi.n() + 1u8;
                    if d.bits() <= 256 && !hi.over {
                        (hi, Num { v: U(d), over: false })
                    } else {
                        (hi, lo)
                    }
                }
                _ => (hi, lo),
            }
        })
        .boxed()
}
fn init() -> BoxedStrategy<Init> {
    (
        (0u8..10, prop_oneof![8 => "[a-z_0-9]{1,12}", 1 => " {0,3}", 1 => " ?[a-z]{1,3} ?", 1 => Just("\t\n".to_string())], prop::option::weighted(0.8, address()), prop_oneof![12 => 1u8..20, 1 => Just(0u8)], 0u8..3, min_tf()),
        (num(), prop_oneof![8 => num(), 1 => Just(Num { v: U((N::from(1u8) << 256) - 1u8), over: false })], num(), 0u8..9, prop_oneof![2 => num(), 2 => small()], prop_oneof![2 => num(), 2 => small()]),
    )
        .prop_map(|((net, key, helper, ledger, tag, (min, tf)), (nonce, scraped, prio, lsm, dfee, wfee))| Init { net, key, helper, ledger, tag, min, tf, nonce, scraped, prio, lsm, dfee, wfee })
        .boxed()
}
fn upg() -> BoxedStrategy<Upg> {
    let o = |s: BoxedStrategy<Num>| prop::option::weighted(0.3, s);
    let amounts = prop_oneof![4 => Just((None, None)), 3 => min_tf().prop_map(|(a, b)| (Some(a), Some(b))), 1 => min_tf().prop_map(|(a, _)| (Some(a), None)), 1 => min_tf().prop_map(|(_, b)| (None, Some(b)))];
    (
        (o(num()), amounts, prop::option::weighted(0.3, address()), prop::option::weighted(0.3, 0u8..3), o(num())),
        (prop::option::weighted(0.3, 0u8..9), o(num()), o(prop_oneof![num(), small()].boxed()), o(prop_oneof![num(), small()].boxed()), prop_oneof![20 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)]),
    )
        .prop_map(|((nonce, (min, tf), helper, tag, scraped), (rpc, prio, dfee, wfee, kind))| Upg { nonce, min, helper, tag, scraped, rpc, tf, prio, dfee, wfee, kind })
        .boxed()
}
fn conf() -> BoxedStrategy<Conf> {
    (init(), prop::collection::vec(upg(), 0..4), prop::bool::weighted(0.02)).prop_map(|(init, ups, wrong_kind)| Conf { init, ups, wrong_kind }).boxed()
}

fn tag(t: u8) -> api::CandidBlockTag {
    [api::CandidBlockTag::Latest, api::CandidBlockTag::Safe, api::CandidBlockTag::Finalized][t as usize % 3].clone()
}
impl Init {
    fn arg(&self) -> api::InitArg {
        api::InitArg {
            evm_network: NETS[self.net as usize % 10],
            ecdsa_key_name: self.key.clone(),
            helper_contract_address: self.helper.as_ref().map(|h| h.text()),
            native_ledger_id: principal(self.ledger),
            native_index_id: pid(1, 1),
            native_symbol: "icNATIVE".into(),
            block_height: tag(self.tag),
            native_minimum_withdrawal_amount: self.min.nat(),
            native_ledger_transfer_fee: self.tf.nat(),
            next_transaction_nonce: self.nonce.nat(),
            last_scraped_block_number: self.scraped.nat(),
            min_max_priority_fee_per_gas: self.prio.nat(),
            ledger_suite_manager_id: principal(self.lsm),
            deposit_native_fee: self.dfee.nat(),
            withdrawal_native_fee: self.wfee.nat(),
        }
    }
    /// Why it must be refused.
    fn wrong(&self) -> Option<&'static str> {
        let max = (N::from(1u8) << 256) - 1u8;
        if [&self.min, &self.tf, &self.nonce, &self.scraped, &self.prio, &self.dfee, &self.wfee].iter().any(|x| x.over) {
            return Some("a number is out of range");
        }
        if self.key.trim().is_empty() {
            return Some("the key name is empty");
        }
        if self.helper.as_ref().map_or(false, |h| !h.valid()) {
            return Some("the helper address is bad");
        }
        if self.ledger == 0 {
            return Some("the ledger is the anonymous principal");
        }
        if self.min.n() == N::from(0u8) || self.min.n() < self.tf.n() {
            return Some("the minimum withdrawal is zero or below the ledger fee");
        }
        if self.scraped.n() == max {
            return Some("no block is left to scrape");
        }
        None
    }
}
#[derive(Clone)]
struct Now {
    min: N,
    tf: N,
}
impl Upg {
    fn arg(&self) -> UpgradeArg {
        UpgradeArg {
            next_transaction_nonce: self.nonce.as_ref().map(Num::nat),
            native_minimum_withdrawal_amount: self.min.as_ref().map(Num::nat),
            helper_contract_address: self.helper.as_ref().map(Text::text),
            block_height: self.tag.map(tag),
            last_scraped_block_number: self.scraped.as_ref().map(Num::nat),
            evm_rpc_id: self.rpc.map(principal),
            native_ledger_transfer_fee: self.tf.as_ref().map(Num::nat),
            min_max_priority_fee_per_gas: self.prio.as_ref().map(Num::nat),
            deposit_native_fee: self.dfee.as_ref().map(Num::nat),
            withdrawal_native_fee: self.wfee.as_ref().map(Num::nat),
        }
    }
    fn wrong(&self, s: &mut Now) -> Option<&'static str> {
        match self.kind {
            1 => return None,
            2 => return Some("it is an init argument"),
            _ => {}
        }
        if [&self.nonce, &self.min, &self.scraped, &self.tf, &self.prio, &self.dfee, &self.wfee].iter().any(|x| x.as_ref().map_or(false, |x| x.over)) {
            return Some("a number is out of range");
        }
        if self.helper.as_ref().map_or(false, |h| !h.valid()) {
            return Some("the helper address is bad");
        }
        if let Some(m) = &self.min {
            s.min = m.n();
        }
        if let Some(t) = &self.tf {
            s.tf = t.n();
        }
        if s.min == N::from(0u8) || s.min < s.tf {
            return Some("the minimum withdrawal is zero or below the ledger fee");
        }
        None
    }
}

fn test(c: &Conf, init_arg: &api::InitArg) -> Verdict {
    let mut w = new_world(c.init.net as usize % 10, 0, 7);
    let opt = |v: &Num| if v.n() == N::from(0u8) { None } else { Some(v.nat()) };
    let mut want: Option<api::MinterInfo> = None;
    let mut now = Now { min: c.init.min.n(), tf: c.init.tf.n() };
    let mut valid = 0;
    for step in 0..=c.ups.len() {
        let (wrong, what) = if step == 0 {
            (if c.wrong_kind { Some("it is an upgrade argument") } else { c.init.wrong() }, format!("installing with {:?}", c.init))
        } else {
            (c.ups[step - 1].wrong(&mut now), format!("upgrading with {:?}", c.ups[step - 1]))
        };
        if step == 0 && wrong.is_none() {
            let i = &c.init;
            want = Some(api::MinterInfo {
                minter_address: None,
                helper_smart_contract_address: i.helper.as_ref().map(|h| eip55(&h.a)),
                supported_erc20_tokens: Some(vec![]),
                minimum_withdrawal_amount: Some(i.min.nat()),
                deposit_native_fee: opt(&i.dfee),
                withdrawal_native_fee: opt(&i.wfee),
                block_height: Some(tag(i.tag)),
                last_observed_block_number: None,
                native_balance: Some(Nat::from(0u8)),
                last_gas_fee_estimate: None,
                erc20_balances: Some(vec![]),
                last_scraped_block_number: Some(i.scraped.nat()),
                native_twin_token_ledger_id: Some(principal(i.ledger)),
                swap_canister_id: None,
                ledger_suite_manager_id: Some(principal(i.lsm)),
            });
        } else if wrong.is_none() && c.ups[step - 1].kind == 0 {
            let u = &c.ups[step - 1];
            let i = want.as_mut().unwrap();
            if let Some(h) = &u.helper {
                i.helper_smart_contract_address = Some(eip55(&h.a));
            }
            if let Some(m) = &u.min {
                i.minimum_withdrawal_amount = Some(m.nat());
            }
            if let Some(m) = &u.dfee {
                i.deposit_native_fee = opt(m);
            }
            if let Some(m) = &u.wfee {
                i.withdrawal_native_fee = opt(m);
            }
            if let Some(t) = u.tag {
                i.block_height = Some(tag(t));
            }
            if let Some(s) = &u.scraped {
                i.last_scraped_block_number = Some(s.nat());
            }
        }
        let mut verdict: Verdict = Ok(Info::trivial());
        let mut done = false;
        let world = &mut w;
        on_thread(&mut || {
            ic0::sim::install(world.env);
            let ctx = world.new_ctx(pid(9, 9), None);
            // SAFETY: the canister's entry points.
            if step == 0 {
                let a = if c.wrong_kind { MinterArg::UpgradeArg(UpgradeArg::default()) } else { MinterArg::InitArg(init_arg.clone()) };
                world.exec(ctx, pid(9, 9), Encode!(&a).unwrap(), None, || unsafe { Method::canister_init.call() });
            } else {
                let u = &c.ups[step - 1];
                let a: Option<MinterArg> = match u.kind {
                    0 => Some(MinterArg::UpgradeArg(u.arg())),
                    1 => None,
                    _ => Some(MinterArg::InitArg(init_arg.clone())),
                };
                world.exec(ctx, pid(9, 9), Encode!(&a).unwrap(), None, || unsafe { Method::canister_post_upgrade.call() });
            }
            done = true;
            if wrong.is_some() {
                return;
            }
            let mut info = world.read_info();
            if let Some(i) = &mut info {
                i.last_observed_block_number = None;
            }
            if info != want {
                verdict = Err(format!("{what}: the minter reports {info:?} instead of {want:?}"));
                return;
            }
            // The state before the next upgrade.
            if step < c.ups.len() {
                let ctx = world.new_ctx(pid(9, 9), None);
                world.exec(ctx, pid(9, 9), vec![], None, || unsafe { Method::canister_pre_upgrade.call() });
            }
        });
        match wrong {
            Some(why) => {
                ensure!(!done, "{what} is accepted although {why}");
                return Ok(Info::nontrivial(true).label(why).label(if step == 0 { "install refused" } else { "upgrade refused" }));
            }
            None => {
                ensure!(done, "{what} is refused: {:?}", w.trap.text);
                verdict?;
                valid += 1;
            }
        }
    }
    Ok(Info::nontrivial(valid > 0).label("all accepted").label_if(valid > 1, "upgrades accepted"))
}

pub fn run(ctx: &mut Ctx) {
    ctx.check_with(
        "configurations",
        "a random init argument and up to 3 upgrade arguments, each field valid, at its limit or invalid; accepted exactly when the written rules allow it, and then reported exactly. Counts when something was accepted, or refused for the expected reason",
        4000,
        15,
        2000,
        conf,
        |c: &Conf| crate::check::sound(|| test(c, &c.init.arg())),
    );
}
