//! V04, V05, V06, V07, V17, V20: transactions on the real runtime.
//!
//! The templates of these checks run small *scripts* out of their calldata, so
//! every transaction is data. A model of the chain (accounts, variables,
//! templates, layers) says what each transaction does; the real runtime is
//! compared with it after every one: the receipt, every account with its
//! variables, the templates, the last layer and its fingerprint.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

use svm_codec::Codec;
use svm_genesis_config::GenesisConfig;
use svm_program::{Program, ProgramVisitor};
use svm_runtime::{compute_account_addr, PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_state::{AccountStorage, GlobalState, TemplateStorage};
use svm_types::*;
use vh_core::{hash_of, no_panic, sequences, Ctx};

use crate::admit::deploy_msg;
use crate::env::*;

pub const STEP: usize = 64;

/// One step of a script.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Nop,
    Set64(u8, u64),
    Set32(u8, u32),
    Get64(u8),
    Get32(u8),
    /// Stores 20 bytes (all equal to the second field, then counting up).
    Store160(u8, u8),
    Load160(u8),
    /// (from, to, amount), with indices into the accounts known.
    Xfer(usize, usize, u64),
    Log(u8, u8),
    Ret(u8, u8),
    /// Fails at once.
    Trap,
    /// Logs bytes which aren't there.
    LogOob,
    /// Points to return data which isn't there.
    RetOob,
    RetEmpty,
    DivZero,
}

use St::*;

fn pattern(seed: u8, n: usize) -> Vec<u8> {
    if seed == 255 {
        return vec![0; n];
    }
    (0..n).map(|i| seed.wrapping_add(i as u8)).collect()
}

pub fn encode(script: &[St], addrs: &[Address]) -> Vec<u8> {
    let mut out = vec![];
    for i in 0..3 {
        let mut b = [0u8; STEP];
        match script.get(i).copied().unwrap_or(Nop) {
            Nop => {}
            Set64(v, x) => {
                b[0] = 1;
                b[1] = v;
                b[8..16].copy_from_slice(&x.to_le_bytes());
            }
            Get64(v) => {
                b[0] = 2;
                b[1] = v;
            }
            Xfer(s, d, x) => {
                b[0] = 3;
                b[8..16].copy_from_slice(&x.to_le_bytes());
                b[16..36].copy_from_slice(addrs[s].as_slice());
                b[36..56].copy_from_slice(addrs[d].as_slice());
            }
            Trap => b[0] = 4,
            Log(seed, n) => {
                b[0] = 5;
                b[1] = n;
                b[8..8 + n as usize].copy_from_slice(&pattern(seed, n as usize));
            }
            Ret(seed, n) => {
                b[0] = 6;
                b[1] = n;
                b[8..8 + n as usize].copy_from_slice(&pattern(seed, n as usize));
            }
            Set32(v, x) => {
                b[0] = 7;
                b[1] = v;
                b[8..12].copy_from_slice(&x.to_le_bytes());
            }
            Get32(v) => {
                b[0] = 8;
                b[1] = v;
            }
            Store160(v, seed) => {
                b[0] = 9;
                b[1] = v;
                b[16..36].copy_from_slice(&pattern(seed, 20));
            }
            Load160(v) => {
                b[0] = 10;
                b[1] = v;
            }
            LogOob => b[0] = 11,
            RetOob => b[0] = 12,
            RetEmpty => b[0] = 13,
            DivZero => b[0] = 14,
        }
        out.extend_from_slice(&b);
    }
    out
}

/// How `svm_alloc` of a template behaves.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Alloc {
    Plain,
    Set,
    Get,
    Transfer,
    Trap,
    Oob,
}

/// The template that runs scripts. `tag` makes its code (and so its address) unique.
pub fn script_wat(tag: u32, alloc: Alloc) -> String {
    let alloc = match alloc {
        Alloc::Plain => "",
        Alloc::Set => "(call $set64 (i32.const 0) (i64.const 9))",
        Alloc::Get => "(drop (call $get64 (i32.const 0)))",
        Alloc::Transfer => "(call $xfer (i32.const 256) (i32.const 276) (i64.const 1))",
        Alloc::Trap => "unreachable",
        Alloc::Oob => "(return (i32.const 65530))",
    };
    format!(
        r#"(module
 (import "svm" "svm_calldata_offset" (func $off (result i32)))
 (import "svm" "svm_set64" (func $set64 (param i32 i64)))
 (import "svm" "svm_get64" (func $get64 (param i32) (result i64)))
 (import "svm" "svm_set32" (func $set32 (param i32 i32)))
 (import "svm" "svm_get32" (func $get32 (param i32) (result i32)))
 (import "svm" "svm_store160" (func $store (param i32 i32)))
 (import "svm" "svm_load160" (func $load (param i32 i32)))
 (import "svm" "svm_transfer" (func $xfer (param i32 i32 i64)))
 (import "svm" "svm_log" (func $log (param i32 i32)))
 (import "svm" "svm_set_returndata" (func $ret (param i32 i32)))
 (import "svm" "svm_calldata_len" (func $len (result i32)))
 (memory (export "memory") 1)
 (global $tag i32 (i32.const {tag}))
 (data (i32.const 256) "\11\11\11\11\11\11\11\11\11\11\11\11\11\11\11\11\11\11\11\11\22\22\22\22\22\22\22\22\22\22\22\22\22\22\22\22\22\22\22\22")
 (func $step (param $p i32) (local $op i32) (local $v i32)
  (local.set $op (i32.load8_u (local.get $p)))
  (local.set $v (i32.load8_u offset=1 (local.get $p)))
  (if (i32.eq (local.get $op) (i32.const 1)) (then (call $set64 (local.get $v) (i64.load offset=8 (local.get $p)))))
  (if (i32.eq (local.get $op) (i32.const 2)) (then (i64.store (i32.const 512) (call $get64 (local.get $v))) (call $log (i32.const 512) (i32.const 8))))
  (if (i32.eq (local.get $op) (i32.const 3)) (then (call $xfer (i32.add (local.get $p) (i32.const 16)) (i32.add (local.get $p) (i32.const 36)) (i64.load offset=8 (local.get $p)))))
  (if (i32.eq (local.get $op) (i32.const 4)) (then unreachable))
  (if (i32.eq (local.get $op) (i32.const 5)) (then (call $log (i32.add (local.get $p) (i32.const 8)) (local.get $v))))
  (if (i32.eq (local.get $op) (i32.const 6)) (then (call $ret (i32.add (local.get $p) (i32.const 8)) (local.get $v))))
  (if (i32.eq (local.get $op) (i32.const 7)) (then (call $set32 (local.get $v) (i32.load offset=8 (local.get $p)))))
  (if (i32.eq (local.get $op) (i32.const 8)) (then (i32.store (i32.const 512) (call $get32 (local.get $v))) (call $log (i32.const 512) (i32.const 4))))
  (if (i32.eq (local.get $op) (i32.const 9)) (then (call $store (i32.add (local.get $p) (i32.const 16)) (local.get $v))))
  (if (i32.eq (local.get $op) (i32.const 10)) (then (call $load (local.get $v) (i32.const 512)) (call $log (i32.const 512) (i32.const 20))))
  (if (i32.eq (local.get $op) (i32.const 11)) (then (call $log (i32.const 65530) (i32.const 20))))
  (if (i32.eq (local.get $op) (i32.const 12)) (then (call $ret (i32.const 65530) (i32.const 20))))
  (if (i32.eq (local.get $op) (i32.const 13)) (then (call $ret (i32.const 0) (i32.const 0))))
  (if (i32.eq (local.get $op) (i32.const 14)) (then (drop (i32.div_u (i32.const 1) (i32.load8_u offset=2 (local.get $p)))))))
 (func $script (export "script")
  (call $step (call $off))
  (call $step (i32.add (call $off) (i32.const {s1})))
  (call $step (i32.add (call $off) (i32.const {s2}))))
 (func (export "ctor") {pad} (call $script))
 (func (export "ctor_empty") {pad} {pad} (call $set64 (i32.const 1) (i64.const 77)))
 (func (export "noargs") (call $set64 (i32.const 1) (i64.const 5)))
 (func (export "echo") (call $ret (call $off) (call $len)))
 (func (export "with_param") (param i32) (call $set64 (i32.const 1) (i64.const 6)))
 (func (export "with_result") (result i32) (call $set64 (i32.const 1) (i64.const 6)) (i32.const 0))
 (export "imported" (func $len))
 (func (export "svm_alloc") (param i32) (result i32) {alloc} (i32.const 1024))
 (func (export "svm_verify") (result i32) (call $script) (i32.const 0)))"#,
        tag = tag,
        s1 = STEP,
        s2 = 2 * STEP,
        alloc = alloc,
        // Every template has prices of its own.
        pad = "(drop (i32.const 0))".repeat(tag as usize)
    )
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tmpl {
    pub wat: String,
    pub sizes: &'static [u32],
    pub ctors: &'static [&'static str],
    pub alloc: Alloc,
}

const CTORS: &[&str] = &["ctor", "ctor_empty", "absent", "imported", "with_param"];

pub fn templates() -> Vec<Tmpl> {
    let t = |tag, alloc, sizes| Tmpl { wat: script_wat(tag, alloc), sizes, ctors: CTORS, alloc };
    vec![
        t(1, Alloc::Plain, &[8, 4, 20, 8, 40]),
        t(2, Alloc::Plain, &[20, 8, 3, 1, 30]),
        t(3, Alloc::Set, &[8, 8]),
        t(4, Alloc::Get, &[8, 8]),
        t(5, Alloc::Transfer, &[8, 8]),
        t(6, Alloc::Trap, &[8, 8]),
        t(7, Alloc::Oob, &[8, 8]),
        // Only deployed by transactions.
        t(8, Alloc::Plain, &[1, 2, 4, 8]),
    ]
}

pub const ALLOCS: [usize; 5] = [2, 3, 4, 5, 6];
pub const LATE: usize = 7;

/// The accounts known: three made at the start, one to be spawned of each
/// template, one that never exists.
pub const P: usize = 0;
pub const B: usize = 1;
pub const C: usize = 2;
pub const SPAWNED: usize = 3;
pub fn spawned(t: usize) -> usize {
    SPAWNED + t
}
pub fn nobody() -> usize {
    SPAWNED + 8
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Acct {
    pub name: String,
    pub template: usize,
    pub balance: u64,
    pub counter: u128,
    pub vars: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Model {
    pub accts: BTreeMap<usize, Acct>,
    pub deployed: BTreeSet<usize>,
    pub layer: u64,
    /// Are there changes after the last layer?
    pub changed: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// (template, gas: None is plenty)
    Deploy(usize, Option<u64>),
    /// (template, constructor, script, gas)
    Spawn(usize, &'static str, Vec<St>, Option<u64>),
    /// (account, function, script; an empty script is empty calldata)
    Call(usize, &'static str, Vec<St>),
    Verify(usize, Vec<St>),
    /// Runtime::increase_balance
    Fund(usize, u64),
    /// Runtime::transfer
    Send(usize, usize, u64),
    Commit,
    Rewind(u64),
}

/// What a transaction leads to.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Ok { logs: Vec<Vec<u8>>, ret: Vec<u8>, touched: BTreeSet<usize> },
    /// Fails, by a receipt with these logs (if told) or by a panic.
    Fail { logs: Option<Vec<Vec<u8>>>, error: Option<&'static str> },
}

fn fail(error: &'static str) -> Want {
    Want::Fail { logs: None, error: Some(error) }
}

impl Model {
    /// Runs a script as the account `me`. Changes are made in place.
    fn script(&mut self, me: usize, denied: bool, script: &[St], tmpl: &[Tmpl]) -> Want {
        let mut logs: Vec<Vec<u8>> = vec![];
        let mut ret: Option<Vec<u8>> = None;
        let mut touched = BTreeSet::new();
        touched.insert(me);
        let mut late_fail = false;
        let sizes = tmpl[self.accts[&me].template].sizes;
        let panics = Want::Fail { logs: None, error: None };
        for st in script {
            let var_of = |v: u8, max: u32| sizes.get(v as usize).copied().filter(|s| *s <= max);
            let zero_ext = |b: &[u8], n: usize| {
                let mut o = vec![0; n];
                o[..b.len()].copy_from_slice(b);
                o
            };
            match *st {
                Nop => {}
                Set64(v, x) => match var_of(v, 8) {
                    Some(s) if !denied => self.accts.get_mut(&me).unwrap().vars[v as usize] = x.to_le_bytes()[..s as usize].to_vec(),
                    _ => return panics,
                },
                Set32(v, x) => match var_of(v, 4) {
                    Some(s) if !denied => self.accts.get_mut(&me).unwrap().vars[v as usize] = x.to_le_bytes()[..s as usize].to_vec(),
                    _ => return panics,
                },
                Get64(v) => match var_of(v, 8) {
                    Some(_) if !denied => logs.push(zero_ext(&self.accts[&me].vars[v as usize], 8)),
                    _ => return panics,
                },
                Get32(v) => match var_of(v, 4) {
                    Some(_) if !denied => logs.push(zero_ext(&self.accts[&me].vars[v as usize], 4)),
                    _ => return panics,
                },
                Store160(v, seed) => match var_of(v, 20) {
                    Some(s) if !denied => self.accts.get_mut(&me).unwrap().vars[v as usize] = pattern(seed, 20)[..s as usize].to_vec(),
                    _ => return panics,
                },
                Load160(v) => match var_of(v, 20) {
                    Some(_) if !denied => logs.push(zero_ext(&self.accts[&me].vars[v as usize], 20)),
                    _ => return panics,
                },
                Xfer(_, _, 0) => {}
                Xfer(s, d, x) => {
                    if denied || !may_debit(me, s) || !self.transfer(s, d, x) {
                        return panics;
                    }
                    touched.insert(s);
                    touched.insert(d);
                }
                Log(seed, n) => logs.push(pattern(seed, n as usize)),
                Ret(seed, n) => ret = Some(pattern(seed, n as usize)),
                Trap | DivZero => return Want::Fail { logs: Some(logs), error: Some("FuncFailed") },
                LogOob | RetEmpty => return panics,
                RetOob => late_fail = true,
            }
        }
        if late_fail {
            return panics;
        }
        Want::Ok { logs, ret: ret.unwrap_or_default(), touched }
    }

    fn transfer(&mut self, s: usize, d: usize, x: u64) -> bool {
        let (sb, db) = match (self.accts.get(&s), self.accts.get(&d)) {
            (Some(a), Some(b)) => (a.balance, b.balance),
            _ => return false,
        };
        if sb < x {
            return false;
        }
        if s == d {
            return true;
        }
        match db.checked_add(x) {
            None => false,
            Some(n) => {
                self.accts.get_mut(&s).unwrap().balance = sb - x;
                self.accts.get_mut(&d).unwrap().balance = n;
                true
            }
        }
    }

    /// Runs the function `func` of the account `me` with the calldata of the script.
    fn exec(&mut self, me: usize, func: &str, script: &[St], denied: bool, tmpl: &[Tmpl], addrs: &[Address]) -> Want {
        let alloc = tmpl[self.accts[&me].template].alloc;
        let panics = Want::Fail { logs: None, error: None };
        if !script.is_empty() {
            match alloc {
                Alloc::Plain => {}
                Alloc::Trap => return fail("FuncFailed"),
                _ => return panics, // no access from within svm_alloc, or no such memory
            }
        }
        let sizes = tmpl[self.accts[&me].template].sizes;
        let mut touched = BTreeSet::new();
        touched.insert(me);
        match func {
            "script" | "ctor" | "svm_verify" => {
                if script.is_empty() {
                    return panics; // there's no calldata to read
                }
                self.script(me, denied, script, tmpl)
            }
            "noargs" | "ctor_empty" => {
                if denied || sizes.get(1).map_or(true, |s| *s > 8) {
                    return panics;
                }
                let x: u64 = if func == "noargs" { 5 } else { 77 };
                self.accts.get_mut(&me).unwrap().vars[1] = x.to_le_bytes()[..sizes[1] as usize].to_vec();
                Want::Ok { logs: vec![], ret: vec![], touched }
            }
            "echo" => {
                if script.is_empty() {
                    return panics;
                }
                Want::Ok { logs: vec![], ret: encode(script, addrs), touched }
            }
            _ => unreachable!("{}", func),
        }
    }

    pub fn total(&self) -> u128 {
        self.accts.values().map(|a| a.balance as u128).sum()
    }
}

pub struct World {
    pub rt: Runtime,
    pub gs: GlobalState,
    pub tokio: Arc<tokio::runtime::Runtime>,
    pub model: Model,
    /// Per layer: the model and the fingerprint.
    history: Vec<(Model, State)>,
    pub tmpl: Arc<Vec<Tmpl>>,
    pub taddrs: Arc<Vec<TemplateAddr>>,
    pub addrs: Arc<Vec<Address>>,
    msgs: Arc<Vec<Vec<u8>>>,
}

/// Things computed once per process.
#[derive(Clone)]
pub struct Fixed {
    pub tmpl: Arc<Vec<Tmpl>>,
    pub taddrs: Arc<Vec<TemplateAddr>>,
    pub addrs: Arc<Vec<Address>>,
    pub msgs: Arc<Vec<Vec<u8>>>,
    /// Price of each constructor.
    pub prices: Arc<Vec<HashMap<&'static str, u64>>>,
}

pub fn fixed() -> Fixed {
    let tmpl = templates();
    let mut taddrs = vec![];
    let mut msgs = vec![];
    let mut addrs = vec![Address::repeat(0x11), Address::repeat(0x22), Address::repeat(0x33)];
    let mut prices = vec![];
    for t in &tmpl {
        let code = wat::parse_str(&t.wat).unwrap();
        let section = CodeSection::new_fixed(code.clone(), 0);
        let a = compute_template_addr(&section);
        msgs.push(deploy_msg(code.clone(), t.sizes, t.ctors));
        addrs.push(compute_account_addr(&SpawnAccount::new(0, &a, "", "", vec![])));
        taddrs.push(a);
        let p = Program::new(&code, true).unwrap();
        let pricing = svm_gas::ProgramPricing::new(std::rc::Rc::new(svm_gas::resolvers::V0PriceResolver::default()));
        let fp = pricing.visit(&p).unwrap();
        let mut m = HashMap::new();
        for f in ["ctor", "ctor_empty", "with_param"] {
            m.insert(f, fp.get(p.exports().get(f).unwrap()) as u64);
        }
        prices.push(m);
    }
    addrs.push(Address::repeat(0x99));
    Fixed {
        tmpl: Arc::new(tmpl),
        taddrs: Arc::new(taddrs),
        addrs: Arc::new(addrs),
        msgs: Arc::new(msgs),
        prices: Arc::new(prices),
    }
}

pub fn plenty() -> Gas {
    Gas::with(1 << 60)
}

pub fn envelope(principal: &Address, gas: Option<u64>) -> Envelope {
    Envelope::new(principal.clone(), 0, 0x1_0000_0000_0000_0003, gas.map_or(plenty(), Gas::with), 7)
}

fn error_name(e: &RuntimeError) -> &'static str {
    match e {
        RuntimeError::OOG => "OOG",
        RuntimeError::TemplateNotFound(..) => "TemplateNotFound",
        RuntimeError::AccountNotFound(..) => "AccountNotFound",
        RuntimeError::CompilationFailed { .. } => "CompilationFailed",
        RuntimeError::InstantiationFailed { .. } => "InstantiationFailed",
        RuntimeError::FuncNotFound { .. } => "FuncNotFound",
        RuntimeError::FuncFailed { .. } => "FuncFailed",
        RuntimeError::FuncNotAllowed { .. } => "FuncNotAllowed",
        RuntimeError::FuncInvalidSignature { .. } => "FuncInvalidSignature",
        RuntimeError::FuncNotCtor { .. } => "FuncNotCtor",
    }
}

struct Got {
    success: bool,
    error: Option<RuntimeError>,
    new_state: Option<State>,
    ret: Option<Vec<u8>>,
    touched: HashSet<Address>,
    logs: Vec<Vec<u8>>,
}

impl World {
    pub fn new(f: &Fixed) -> Self {
        let t = tokio();
        let gs = t.block_on(GlobalState::in_memory(GenesisConfig { templates: Default::default() }));
        let rt = Runtime::new(t.clone(), gs.clone(), TemplatePriceCache::new(PriceResolverRegistry::default()));
        let mut w = World {
            rt,
            gs,
            tokio: t,
            model: Model { accts: BTreeMap::new(), deployed: BTreeSet::new(), layer: 0, changed: false },
            history: vec![],
            tmpl: f.tmpl.clone(),
            taddrs: f.taddrs.clone(),
            addrs: f.addrs.clone(),
            msgs: f.msgs.clone(),
        };
        for i in 0..LATE {
            let r = w.rt.deploy(&envelope(&w.addrs[P], None), &w.msgs[i], &Context::default());
            assert!(r.success && r.addr == Some(w.taddrs[i]), "deploying the templates of the harness: {:?}", r);
            w.model.deployed.insert(i);
        }
        for (i, t, balance, counter) in [(P, 0, 1000u64, 1u128), (B, 1, u64::MAX - 500, 2), (C, 0, 50, u128::MAX)] {
            w.rt.create_account(&w.addrs[i], w.taddrs[t], format!("acct{}", i), balance, counter).ok().unwrap();
            let vars = w.tmpl[t].sizes.iter().map(|s| vec![0; *s as usize]).collect();
            w.model.accts.insert(i, Acct { name: format!("acct{}", i), template: t, balance, counter, vars });
        }
        w.rt.commit().ok().unwrap();
        let state = w.rt.current_layer().1;
        w.history.push((w.model.clone(), state));
        w
    }

    /// All that can be seen of the chain.
    pub fn observe(&self) -> Result<Model, String> {
        let mut m = Model { accts: BTreeMap::new(), deployed: BTreeSet::new(), layer: 0, changed: self.gs.has_uncommitted_changes() };
        for (i, a) in self.addrs.iter().enumerate() {
            let via_api = self.rt.get_account(a);
            let acct = match self.tokio.block_on(AccountStorage::load(self.gs.clone(), a)) {
                Err(_) => {
                    if via_api.is_some() {
                        return Err(format!("account {} is half there", i));
                    }
                    continue;
                }
                Ok(x) => x,
            };
            let (balance, counter, template) = via_api.ok_or(format!("account {} is there but not reported", i))?;
            let t = self.taddrs.iter().position(|x| *x == template).ok_or(format!("account {} has an unknown template", i))?;
            let mut vars = vec![];
            for v in 0..self.tmpl[t].sizes.len() {
                vars.push(self.tokio.block_on(acct.get_var_vec(v as u32)).map_err(|e| format!("{:?}", e))?);
            }
            let name = self.tokio.block_on(acct.name()).map_err(|e| format!("{:?}", e))?;
            m.accts.insert(i, Acct { name, template: t, balance, counter, vars });
        }
        for (i, t) in self.taddrs.iter().enumerate() {
            let ts = TemplateStorage::load(self.gs.clone(), t).map_err(|e| format!("{:?}", e))?;
            if let Ok(s) = self.tokio.block_on(ts.sections()) {
                let t = Template::from_sections(s);
                if t.code() != &wat::parse_str(&self.tmpl[i].wat).unwrap()[..] {
                    return Err(format!("template {} has other code", i));
                }
                m.deployed.insert(i);
            }
        }
        Ok(m)
    }

    fn check(&mut self, before: Option<State>) -> Result<(), String> {
        let mut got = self.observe()?;
        let (layer, state) = self.tokio.block_on(self.gs.current_layer()).map_err(|e| format!("{:?}", e))?;
        got.layer = layer.0;
        if got != self.model {
            return Err(format!("the chain is {:?}, but should be {:?}", got, self.model));
        }
        if let Some(b) = before {
            if b != state {
                return Err("the fingerprint of the last layer changed".into());
            }
        }
        if self.model.layer as usize == self.history.len() {
            self.history.push((self.model.clone(), state));
        }
        Ok(())
    }

    /// Runs `op` and compares everything with the model. Tells whether it succeeded.
    pub fn apply(&mut self, op: &Op) -> Result<bool, String> {
        let before = self.model.clone();
        let before_state = self.tokio.block_on(self.gs.current_state()).map_err(|e| format!("{:?}", e))?;
        let ok = self.apply_inner(op).map_err(|e| format!("{:?}: {}", op, e))?;
        if !ok {
            self.model = before.clone();
        }
        let same_layer = self.model.layer == before.layer && !matches!(op, Op::Rewind(_));
        self.check(if same_layer { Some(before_state) } else { None }).map_err(|e| format!("after {:?} ({}): {}", op, if ok { "succeeded" } else { "failed" }, e))?;
        if let Op::Rewind(to) = op {
            if ok {
                let s = self.tokio.block_on(self.gs.current_state()).map_err(|e| format!("{:?}", e))?;
                if s != self.history[*to as usize].1 {
                    return Err("the fingerprint after rewinding isn't the one of that layer".into());
                }
            }
        }
        Ok(ok)
    }

    fn commit_model(&mut self) {
        self.model.layer += 1;
        self.model.changed = false;
        self.history.truncate(self.model.layer as usize);
    }

    fn apply_inner(&mut self, op: &Op) -> Result<bool, String> {
        let tmpl = self.tmpl.clone();
        let addrs = self.addrs.clone();
        // What a transaction does doesn't depend on its context.
        let h = hash_of(&format!("{:?}", op)) as u8;
        let ctx = match h % 3 {
            0 => Context::default(),
            1 => Context::new(TransactionId::repeat(h), Layer(7 + h as u64), State::repeat(h)),
            _ => Context::new(TransactionId::repeat(h), Layer(u64::MAX - h as u64), State::repeat(0xFF)),
        };
        match op {
            Op::Deploy(t, gas) => {
                let msg = self.msgs[*t].clone();
                self.rt.validate_deploy(&msg).map_err(|e| format!("validating: {}", e))?;
                let price = 1000 * msg.len() as u64;
                let env = envelope(&addrs[P], *gas);
                let r = no_panic(|| self.rt.deploy(&env, &msg, &ctx))?;
                if gas.map_or(false, |g| g < price) {
                    if r.success || r.error != Some(RuntimeError::OOG) || r.addr.is_some() {
                        return Err(format!("should be out of gas: {:?}", r));
                    }
                    return Ok(false);
                }
                if !r.success || r.error.is_some() || r.addr != Some(self.taddrs[*t]) || r.gas_used != Gas::with(price) {
                    return Err(format!("should be deployed: {:?}", r));
                }
                self.model.deployed.insert(*t);
                self.model.changed = true;
                Ok(true)
            }
            Op::Spawn(t, ctor, script, gas) => {
                let data = if script.is_empty() { vec![] } else { encode(script, &addrs) };
                let spawn = SpawnAccount::new(0, &self.taddrs[*t], "spawned", *ctor, data);
                let msg = spawn.encode_to_vec();
                self.rt.validate_spawn(&msg).map_err(|e| format!("validating: {}", e))?;
                let env = envelope(&addrs[B], *gas);
                let me = spawned(*t);
                let want = if !self.model.deployed.contains(t) {
                    fail("TemplateNotFound")
                } else if !tmpl[*t].ctors.contains(ctor) {
                    fail("FuncNotCtor")
                } else if matches!(*ctor, "absent" | "imported") {
                    fail("FuncNotFound")
                } else if gas.is_some() && *gas < Some(self.spawn_price(*t, ctor, &msg)) {
                    fail("OOG")
                } else if *ctor == "with_param" {
                    fail("FuncInvalidSignature")
                } else {
                    let vars = match self.model.accts.get(&me) {
                        Some(a) => a.vars.clone(),
                        None => tmpl[*t].sizes.iter().map(|s| vec![0; *s as usize]).collect(),
                    };
                    self.model.accts.insert(me, Acct { name: "spawned".into(), template: *t, balance: 0, counter: 0, vars });
                    let mut w = self.model.exec(me, ctor, script, false, &tmpl, &addrs);
                    if let Want::Ok { touched, .. } = &mut w {
                        touched.insert(B); // the principal
                    }
                    w
                };
                let r = no_panic(|| self.rt.spawn(&env, &msg, &ctx));
                let r = r.map(|r| {
                    (r.account_addr.clone(), Got { success: r.success, error: r.error.clone(), new_state: r.init_state.clone(), ret: r.returndata.clone(), touched: r.touched_accounts.clone(), logs: r.logs.iter().map(|l| l.as_bytes().to_vec()).collect() })
                });
                if let Ok((a, got)) = &r {
                    if got.success != a.is_some() || a.as_ref().map_or(false, |a| *a != addrs[me]) {
                        return Err(format!("the receipt names the account {:?}", a));
                    }
                }
                self.judge(r.map(|r| r.1), want, true)
            }
            Op::Call(a, func, script) => {
                let data = if script.is_empty() { vec![] } else { encode(script, &addrs) };
                let tx = Transaction { version: 0, target: addrs[*a].clone(), func_name: func.to_string(), calldata: data, verifydata: vec![] };
                let msg = tx.encode_to_vec();
                self.rt.validate_call(&msg).map_err(|e| format!("validating: {}", e))?;
                let want = match (self.model.accts.get(a).map(|x| x.template), *func) {
                    (None, _) => fail("AccountNotFound"),
                    (Some(t), f) if tmpl[t].ctors.contains(&f) => fail("FuncNotAllowed"),
                    (_, "svm_alloc") | (_, "svm_verify") | (_, "with_result") => fail("FuncInvalidSignature"),
                    (_, "nope") | (_, "memory") | (_, "") => fail("FuncNotFound"),
                    (_, f) => self.model.exec(*a, f, script, false, &tmpl, &addrs),
                };
                let env = envelope(&addrs[P], None);
                let r = no_panic(|| self.rt.call(&env, &msg, &ctx));
                self.judge(r.map(call_got), want, true)
            }
            Op::Verify(a, script) => {
                let data = if script.is_empty() { vec![] } else { encode(script, &addrs) };
                let tx = Transaction { version: 0, target: addrs[*a].clone(), func_name: "script".to_string(), calldata: vec![1, 2, 3], verifydata: data };
                let msg = tx.encode_to_vec();
                let want = if self.model.accts.contains_key(a) {
                    self.model.exec(*a, "svm_verify", script, true, &tmpl, &addrs)
                } else {
                    fail("AccountNotFound")
                };
                let env = envelope(&addrs[P], None);
                let r = no_panic(|| self.rt.verify(&env, &msg, &ctx));
                self.judge(r.map(call_got), want, false)
            }
            Op::Fund(a, x) => {
                let r = no_panic(|| self.rt.increase_balance(&addrs[*a], *x));
                let want = self.model.accts.get(a).and_then(|m| m.balance.checked_add(*x));
                match (r, want) {
                    (Ok(Ok(())), Some(b)) => {
                        self.model.accts.get_mut(a).unwrap().balance = b;
                        self.model.changed = true;
                        Ok(true)
                    }
                    (Ok(Ok(())), None) => Err("should fail".into()),
                    (_, None) => Ok(false),
                    (Ok(Err(e)), Some(_)) => Err(format!("failed: {:?}", e)),
                    (Err(e), Some(_)) => Err(e),
                }
            }
            Op::Send(s, d, x) => {
                let want = self.model.clone().transfer(*s, *d, *x);
                let r = no_panic(|| self.rt.transfer(&addrs[*s], &addrs[*d], *x));
                match (r, want) {
                    (Ok(()), true) => {
                        self.model.transfer(*s, *d, *x);
                        // Whether nothing counts as a change isn't told.
                        self.model.changed = self.gs.has_uncommitted_changes();
                        Ok(true)
                    }
                    (Ok(()), false) => Err("should fail".into()),
                    (Err(_), false) => Ok(false),
                    (Err(e), true) => Err(e),
                }
            }
            Op::Commit => {
                no_panic(|| self.rt.commit())?.map_err(|e| format!("{:?}", e))?;
                self.commit_model();
                Ok(true)
            }
            Op::Rewind(to) => {
                let r = no_panic(|| self.rt.rewind(Layer(*to)))?;
                let want = *to <= self.model.layer;
                if r.is_ok() != want {
                    return Err(format!("rewinding from layer {}: {:?}", self.model.layer, r));
                }
                if want {
                    self.model = self.history[*to as usize].0.clone();
                    self.model.changed = false;
                    self.model.layer = *to;
                    self.history.truncate(*to as usize + 1);
                }
                Ok(want)
            }
        }
    }

    pub fn spawn_price(&self, t: usize, ctor: &str, msg: &[u8]) -> u64 {
        PRICES.with(|p| 1000 * msg.len() as u64 + p.borrow()[t].get(ctor).copied().unwrap_or(0))
    }

    fn judge(&mut self, r: Result<Got, String>, want: Want, commits: bool) -> Result<bool, String> {
        match (r, want) {
            (Err(_), Want::Fail { error: None, .. }) => Ok(false),
            (Err(e), w) => Err(format!("{} (expected {:?})", e, w)),
            (Ok(g), Want::Fail { logs, error }) => {
                if g.success {
                    return Err(format!("succeeded, but should fail ({:?})", error));
                }
                let e = g.error.as_ref().ok_or("failed without an error")?;
                if let Some(w) = error {
                    if error_name(e) != w {
                        return Err(format!("failed with {:?}, not {}", e, w));
                    }
                }
                if let Some(l) = logs {
                    if g.logs != l {
                        return Err(format!("the failing receipt has the logs {:?}, not {:?}", g.logs, l));
                    }
                }
                if g.new_state.is_some() || g.ret.is_some() || !g.touched.is_empty() {
                    return Err("a failing receipt tells of results".into());
                }
                Ok(false)
            }
            (Ok(g), Want::Ok { logs, ret, touched }) => {
                if !g.success {
                    return Err(format!("failed with {:?}, but should succeed", g.error));
                }
                if g.error.is_some() {
                    return Err(format!("succeeded with an error: {:?}", g.error));
                }
                if g.logs != logs {
                    return Err(format!("logged {:?}, not {:?}", g.logs, logs));
                }
                if g.ret.as_ref() != Some(&ret) {
                    return Err(format!("returned {:?}, not {:?}", g.ret, ret));
                }
                let t: HashSet<Address> = touched.iter().map(|i| self.addrs[*i].clone()).collect();
                if g.touched != t {
                    return Err(format!("touched {:?}, not {:?}", g.touched, t));
                }
                let state = self.tokio.block_on(self.gs.current_state()).map_err(|e| format!("{:?}", e))?;
                if g.new_state.as_ref() != Some(&state) {
                    return Err(format!("the receipt's state {:?} isn't that of the last layer ({:?})", g.new_state, state));
                }
                if commits {
                    self.commit_model();
                }
                Ok(true)
            }
        }
    }
}

fn call_got(r: CallReceipt) -> Got {
    Got {
        success: r.success,
        error: r.error.clone(),
        new_state: r.new_state.clone(),
        ret: r.returndata.clone(),
        touched: r.touched_accounts.clone(),
        logs: r.logs.iter().map(|l| l.as_bytes().to_vec()).collect(),
    }
}

thread_local! {
    static PRICES: std::cell::RefCell<Vec<HashMap<&'static str, u64>>> = std::cell::RefCell::new(vec![]);
}

pub fn prepare() -> Fixed {
    let f = fixed();
    PRICES.with(|p| *p.borrow_mut() = f.prices.to_vec());
    // May a template take coins from an account that isn't executed? From its
    // principal (P)? It's a known finding of V06 that it may from any; here it only
    // has to be the same everywhere.
    let try_debit = |s: usize| {
        let mut w = World::new(&f);
        let tx = Transaction { version: 0, target: w.addrs[B].clone(), func_name: "script".into(), calldata: encode(&[Xfer(s, B, 1)], &w.addrs), verifydata: vec![] };
        let _ = no_panic(|| w.rt.call(&envelope(&w.addrs[P], None), &tx.encode_to_vec(), &Context::default()));
        w.observe().map_or(true, |m| m.accts[&B].balance > w.model.accts[&B].balance)
    };
    DEBIT.with(|d| d.set((true, true)));
    let third = try_debit(C);
    let principal = third || try_debit(P);
    DEBIT.with(|d| d.set((third, principal)));
    f
}

thread_local! {
    static DEBIT: std::cell::Cell<(bool, bool)> = std::cell::Cell::new((true, true));
}

/// Whether coins of any account may be moved.
pub fn any_debit() -> bool {
    DEBIT.with(|d| d.get().0)
}

fn may_debit(me: usize, s: usize) -> bool {
    let (third, principal) = DEBIT.with(|d| d.get());
    s == me || third || principal && s == P
}

fn run(c: &mut Ctx, f: &Fixed, ops: &[Op]) -> Result<World, String> {
    let mut w = World::new(f);
    for (i, op) in ops.iter().enumerate() {
        c.step();
        w.apply(op).map_err(|e| format!("operation {}: {}", i + 1, e))?;
        c.state(&w.model);
    }
    Ok(w)
}

fn show(ops: &[Op]) -> String {
    format!("{:?}", ops)
}

fn case(c: &mut Ctx, f: &Fixed, ops: &[Op]) {
    c.case(|| show(ops), |c| run(c, f, ops).map(|_| ()))
}

// ---------------------------------------------------------------------------
// V04: failed transactions leave nothing behind

fn good_ops() -> Vec<Op> {
    vec![
        Op::Spawn(0, "ctor", vec![Set64(0, 11), Xfer(P, spawned(0), 7)], None),
        Op::Call(P, "script", vec![Set64(3, 5), Xfer(P, C, 3), Ret(1, 4)]),
        Op::Call(B, "script", vec![Store160(0, 9), Log(1, 3)]),
        Op::Deploy(LATE, None),
        Op::Fund(C, 10),
        Op::Verify(P, vec![Log(4, 2)]),
    ]
}

fn failing_ops(deep: bool) -> Vec<Op> {
    let mut v = vec![];
    // After changes were made, every way to fail.
    let ends = [Trap, DivZero, LogOob, RetOob, RetEmpty, Get64(9), Set64(2, 1), Xfer(P, nobody(), 1), Xfer(P, B, 501), Xfer(C, P, 1 << 40), Set32(0, 1)];
    for e in ends {
        v.push(Op::Call(P, "script", vec![Set64(0, 99), Xfer(P, C, 5), e]));
        v.push(Op::Spawn(0, "ctor", vec![Set64(0, 98), Xfer(P, C, 6), e], None));
    }
    for e in [Trap, RetOob, Xfer(P, nobody(), 1)] {
        v.push(Op::Spawn(1, "ctor", vec![Store160(0, 7), e], None));
        v.push(Op::Call(B, "script", vec![Store160(0, 3), Xfer(B, P, 9), e]));
    }
    for e in [Trap, Set64(0, 1), Get64(0), Xfer(P, C, 1), RetOob] {
        v.push(Op::Verify(P, vec![Log(1, 1), e]));
    }
    for t in ALLOCS {
        v.push(Op::Spawn(t, "ctor", vec![Set64(0, 1)], None));
        v.push(Op::Spawn(t, "ctor", vec![Xfer(P, C, 2), Set64(1, 2)], None));
    }
    for f in ["ctor", "ctor_empty", "svm_alloc", "svm_verify", "with_result", "nope", "memory", ""] {
        v.push(Op::Call(P, f, vec![Set64(0, 97)]));
        if deep {
            v.push(Op::Call(P, f, vec![]));
        }
    }
    v.push(Op::Call(P, "script", vec![]));
    v.push(Op::Call(nobody(), "script", vec![Set64(0, 1)]));
    v.push(Op::Verify(nobody(), vec![Nop]));
    for f in ["script", "noargs", "absent", "imported", "with_param", "svm_verify", ""] {
        v.push(Op::Spawn(0, f, vec![Set64(0, 96)], None));
    }
    v.push(Op::Spawn(0, "ctor", vec![], None));
    v.push(Op::Spawn(LATE, "ctor", vec![Nop], None)); // unless deployed before
    v.push(Op::Spawn(0, "ctor", vec![Set64(0, 95)], Some(1)));
    v.push(Op::Spawn(0, "ctor", vec![Set64(0, 95)], Some(0)));
    v.push(Op::Spawn(1, "ctor", vec![Set64(1, 95)], Some(400_000)));
    v.push(Op::Deploy(LATE, Some(1)));
    v.push(Op::Deploy(LATE, Some(0)));
    v.push(Op::Deploy(0, Some(999)));
    v.push(Op::Fund(nobody(), 1));
    v.push(Op::Fund(B, 501));
    v.push(Op::Send(P, nobody(), 1));
    v.push(Op::Send(nobody(), P, 1));
    v.push(Op::Send(P, C, 1 << 50));
    v.push(Op::Send(P, B, 501));
    v.push(Op::Rewind(99));
    v
}

/// Runs the history, and the one without what failed; both end the same.
fn v04_case(c: &mut Ctx, f: &Fixed, twins: &mut HashMap<u64, (Model, State)>, ops: &[Op]) -> Result<(), String> {
    let mut w = World::new(f);
    let mut good = vec![];
    for (i, op) in ops.iter().enumerate() {
        c.step();
        if w.apply(op).map_err(|e| format!("operation {}: {}", i + 1, e))? {
            good.push(op.clone());
        }
        c.state(&w.model);
    }
    let end = |w: &mut World| -> Result<(Model, State), String> {
        w.apply(&Op::Commit)?;
        Ok((w.model.clone(), w.rt.current_layer().1))
    };
    let got = end(&mut w)?;
    drop(w);
    if good.len() == ops.len() {
        return Ok(());
    }
    let k = hash_of(&good);
    if !twins.contains_key(&k) {
        let mut w = run(c, f, &good)?;
        let e = end(&mut w)?;
        twins.insert(k, e);
    }
    if twins[&k] != got {
        return Err(format!("with the failing transactions the chain ends with the fingerprint {:?}, without them with {:?}", got.1, twins[&k].1));
    }
    Ok(())
}

/// Templates that fail before the function runs, some after a start function has written:
/// (what is wrong, imports and other definitions, memory, allocation, which operations succeed).
fn broken_templates() -> Vec<(&'static str, String)> {
    let mem = r#"(memory (export "memory") 1)"#;
    let alloc = r#"(func (export "svm_alloc") (param i32) (result i32) (i32.const 1024))"#;
    let set = r#"(import "svm" "svm_set64" (func $set (param i32 i64)))"#;
    let write = "(func $start (call $set (i32.const 0) (i64.const 77))) (start $start)";
    let write_trap = "(func $start (call $set (i32.const 0) (i64.const 77)) unreachable) (start $start)";
    let module = |imports: &str, rest: &str| {
        format!(
            r#"(module {} {}
                (func (export "svm_verify") (result i32) (i32.const 0))
                (func (export "ctor")) (func (export "ctor_bad") (param i32)) (func (export "ctor_trap") unreachable)
                (func (export "f")) (func (export "bad") (param i32)) (func (export "trap") unreachable))"#,
            imports, rest
        )
    };
    let all = |a: &str, b: &str, c: &str| format!("{} {} {}", a, b, c);
    vec![
        ("an unknown import", module(r#"(import "svm" "svm_nothing" (func))"#, &all(mem, alloc, ""))),
        ("an import of an unknown module", module(r#"(import "env" "svm_set64" (func (param i32 i64)))"#, &all(mem, alloc, ""))),
        ("an import of another type", module(r#"(import "svm" "svm_set64" (func (param i32)))"#, &all(mem, alloc, ""))),
        ("data outside of the memory", module("", &all(mem, alloc, r#"(data (i32.const 65535) "ab")"#))),
        ("a start that traps", module("", &all(mem, alloc, "(func $start unreachable) (start $start)"))),
        ("a start that writes and traps", module(set, &all(mem, alloc, write_trap))),
        ("a start that writes", module(set, &all(mem, alloc, write))),
        ("a start that writes, no memory", module(set, &all("", alloc, write))),
        ("a start that writes, a memory that isn't exported", module(set, &all("(memory 1)", alloc, write))),
        ("a start that writes, an allocation that traps", module(set, &all(mem, r#"(func (export "svm_alloc") (param i32) (result i32) unreachable)"#, write))),
        ("a start that writes, an allocation of another type", module(set, &all(mem, r#"(func (export "svm_alloc") (param i64) (result i32) (i32.const 0))"#, write))),
        ("a start that writes, no allocation", module(set, &all(mem, "", write))),
    ]
}

/// What fails changes nothing, whatever its template did until then.
fn broken(c: &mut Ctx, f: &Fixed, what: &str, wat: &str) -> Result<(), String> {
    let code = wat::parse_str(wat).unwrap();
    let t = compute_template_addr(&CodeSection::new_fixed(code.clone(), 0));
    let msg = deploy_msg(code, &[8, 8], &["ctor", "ctor_bad", "ctor_trap", "ctor_missing"]);
    let (old, new) = (Address::repeat(0x44), compute_account_addr(&SpawnAccount::new(0, &t, "", "", vec![])));
    let world = |with: Option<&mut dyn FnMut(&mut World) -> Result<(), String>>, then: Option<&Op>| -> Result<(Model, State, Vec<String>), String> {
        let mut w = World::new(f);
        let r = w.rt.deploy(&envelope(&w.addrs[P], None), &msg, &Context::default());
        if r.addr != Some(t) {
            return Err(format!("deploying: {:?}", r));
        }
        w.rt.create_account(&old, t, "old".into(), 40, 1).map_err(|e| format!("{:?}", e))?;
        w.rt.commit().map_err(|e| format!("{:?}", e))?;
        w.commit_model();
        if let Some(with) = with {
            with(&mut w)?;
        }
        if let Some(op) = then {
            w.apply(op)?;
        }
        w.apply(&Op::Commit)?;
        let mut seen = vec![];
        for a in [&old, &new] {
            let vars = w.tokio.block_on(AccountStorage::load(w.gs.clone(), a)).map(|s| (0..2).map(|v| w.tokio.block_on(s.get_var_vec(v)).ok()).collect::<Vec<_>>()).ok();
            seen.push(format!("{:?} {:?}", w.rt.get_account(a).map(|x| (x.0, x.1)), vars));
        }
        Ok((w.model.clone(), w.rt.current_layer().1, seen))
    };
    let good = good_ops();
    let nexts: Vec<Option<&Op>> = std::iter::once(None).chain(good.iter().map(Some)).collect();
    let mut plain = vec![];
    for n in &nexts {
        plain.push(world(None, *n)?);
    }
    let mut txs: Vec<(&str, &str)> = vec![];
    for fun in ["ctor", "ctor_bad", "ctor_trap", "ctor_missing", "f"] {
        txs.push(("spawn", fun));
    }
    for fun in ["ctor", "f", "bad", "trap", "missing", "memory", "svm_alloc"] {
        txs.push(("call", fun));
    }
    txs.push(("verify", "f"));
    for (kind, fun) in txs {
        for data in [vec![], vec![1, 2, 3]] {
            let failed = std::cell::Cell::new(false);
            let mut go = |w: &mut World| -> Result<(), String> {
                c.step();
                let env = envelope(&w.addrs[P], None);
                let ctx = Context::default();
                let ok = if kind == "spawn" {
                    let m = SpawnAccount::new(0, &t, "new", fun, data.clone()).encode_to_vec();
                    no_panic(|| w.rt.spawn(&env, &m, &ctx)).map(|r| (r.success, r.error.is_some()))
                } else {
                    let tx = Transaction { version: 0, target: old.clone(), func_name: fun.into(), calldata: data.clone(), verifydata: data.clone() };
                    let m = tx.encode_to_vec();
                    let r = no_panic(|| if kind == "call" { w.rt.call(&env, &m, &ctx) } else { w.rt.verify(&env, &m, &ctx) });
                    r.map(|r| (r.success, r.error.is_some()))
                };
                match ok {
                    Ok((true, false)) => {}
                    Ok((false, true)) | Err(_) => failed.set(true),
                    x => return Err(format!("{:?}", x)),
                }
                Ok(())
            };
            let shown = format!("{}, {} {:?} with {} bytes", what, kind, fun, data.len());
            // Does it fail?
            let mut w = World::new(f);
            let r = w.rt.deploy(&envelope(&w.addrs[P], None), &msg, &Context::default());
            if !r.success {
                return Err(format!("deploying: {:?}", r));
            }
            w.rt.create_account(&old, t, "old".into(), 40, 1).map_err(|e| format!("{:?}", e))?;
            go(&mut w).map_err(|e| format!("{}: {}", shown, e))?;
            drop(w);
            if !failed.get() {
                continue;
            }
            for (n, want) in nexts.iter().zip(&plain) {
                let got = world(Some(&mut go), *n).map_err(|e| format!("{}: {}", shown, e))?;
                if got != *want {
                    return Err(format!("{}, then {:?}: the chain is {:?}, without the failed transaction {:?}", shown, n, got, want));
                }
            }
        }
    }
    Ok(())
}

pub fn v04(c: &mut Ctx) {
    let f = prepare();
    for (what, wat) in broken_templates() {
        c.case(|| format!("a template with {}", what), |c| broken(c, &f, what, &wat));
    }
    let (good, bad) = (good_ops(), failing_ops(c.thorough()));
    let twins = std::cell::RefCell::new(HashMap::new());
    let go = |c: &mut Ctx, ops: Vec<Op>| {
        c.case(|| show(&ops), |c| v04_case(c, &f, &mut twins.borrow_mut(), &ops));
    };
    for b in &bad {
        go(c, vec![b.clone()]);
    }
    for g in &good {
        for b in &bad {
            go(c, vec![g.clone(), b.clone()]);
            go(c, vec![b.clone(), g.clone()]);
        }
    }
    for a in &bad {
        for b in &bad {
            go(c, vec![a.clone(), b.clone()]);
        }
    }
    // good, bad, good
    for g in &good {
        for b in &bad {
            for h in &good {
                go(c, vec![g.clone(), b.clone(), h.clone()]);
                if c.thorough() {
                    go(c, vec![g.clone(), h.clone(), b.clone()]);
                    go(c, vec![b.clone(), g.clone(), h.clone()]);
                }
            }
        }
    }
    if c.thorough() {
        for a in &bad {
            for b in &bad {
                for g in &good {
                    go(c, vec![a.clone(), b.clone(), g.clone()]);
                    go(c, vec![a.clone(), g.clone(), b.clone()]);
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------
// V05: coins

pub fn v05(c: &mut Ctx) {
    let f = prepare();
    let s0 = spawned(0);
    let go = |c: &mut Ctx, ops: Vec<Op>| {
        c.case(|| show(&ops), |c| {
            let mut w = World::new(&f);
            for (i, op) in ops.iter().enumerate() {
                c.step();
                let (before, b) = (w.model.total(), w.model.clone());
                let ok = w.apply(op).map_err(|e| format!("operation {}: {}", i + 1, e))?;
                c.state(&w.model);
                let after = w.observe()?.total();
                let minted = match op {
                    Op::Fund(_, x) if ok => *x as u128,
                    _ => 0,
                };
                if !matches!(op, Op::Rewind(_)) && after != before + minted {
                    return Err(format!("operation {}: there were {} coins, now there are {} (accounts before: {:?})", i + 1, before, after, b.accts));
                }
            }
            Ok(())
        });
    };
    let who = [P, B, C, nobody()];
    let amounts = [0u64, 1, 49, 50, 51, 500, 501, 1000, 1001, u64::MAX - 501, u64::MAX - 500, u64::MAX];
    // One transfer by any of the ways, from an account that may be another one.
    for s in who {
        for d in who {
            for x in amounts {
                go(c, vec![Op::Send(s, d, x)]);
                for me in [P, B] {
                    go(c, vec![Op::Call(me, "script", vec![Xfer(s, d, x)])]);
                }
                go(c, vec![Op::Spawn(0, "ctor", vec![Xfer(s, d, x)], None)]);
                go(c, vec![Op::Verify(P, vec![Xfer(s, d, x)])]);
            }
        }
        for x in amounts {
            go(c, vec![Op::Fund(s, x)]);
        }
    }
    // From balances that are alike, nothing, or multiples of each other, the
    // amounts around each of them.
    let before: Vec<(Vec<Op>, [u64; 2])> = vec![
        (vec![Op::Send(P, C, 475)], [525, 525]),
        (vec![Op::Send(P, C, 1000)], [0, 1050]),
        (vec![Op::Send(C, P, 50)], [1050, 0]),
        (vec![Op::Send(P, C, 300)], [700, 350]),
        (vec![Op::Send(P, C, 475), Op::Commit], [525, 525]),
        (vec![Op::Fund(C, 950)], [1000, 1000]),
    ];
    for (first, balances) in &before {
        let mut xs: Vec<u64> = vec![];
        for b in balances {
            xs.extend(&[b.saturating_sub(1), *b, b + 1, b / 2]);
        }
        xs.sort();
        xs.dedup();
        for (s, d) in [(P, C), (C, P), (P, P), (C, C)] {
            for x in &xs {
                let last = [Op::Send(s, d, *x), Op::Call(P, "script", vec![Xfer(s, d, *x)]), Op::Spawn(0, "ctor", vec![Xfer(s, d, *x)], None)];
                for op in last.iter() {
                    go(c, first.iter().cloned().chain(std::iter::once(op.clone())).collect());
                }
                go(c, first.iter().cloned().chain(vec![Op::Send(s, d, *x), Op::Send(d, s, *x)]).collect());
                if s == P {
                    go(c, first.iter().cloned().chain(std::iter::once(Op::Fund(d, *x))).collect());
                }
            }
        }
    }
    // Sequences of transfers within one transaction and over several.
    let small: Vec<(usize, usize, u64)> = vec![(P, C, 3), (C, P, 50), (P, P, 7), (P, P, 1000), (P, B, 500), (B, P, 4), (C, C, 51), (P, C, 1001), (P, nobody(), 1), (B, B, 1), (P, C, 0)];
    for a in &small {
        for b in &small {
            go(c, vec![Op::Call(P, "script", vec![Xfer(a.0, a.1, a.2), Xfer(b.0, b.1, b.2)])]);
            go(c, vec![Op::Send(a.0, a.1, a.2), Op::Call(C, "script", vec![Xfer(b.0, b.1, b.2)])]);
            go(c, vec![Op::Spawn(0, "ctor", vec![Xfer(a.0, a.1, a.2), Xfer(b.0, s0, b.2)], None)]);
            for d in &small {
                if c.thorough() {
                    go(c, vec![Op::Call(P, "script", vec![Xfer(a.0, a.1, a.2), Xfer(b.0, b.1, b.2), Xfer(d.0, d.1, d.2)])]);
                    go(c, vec![Op::Call(P, "script", vec![Xfer(a.0, a.1, a.2)]), Op::Call(C, "script", vec![Xfer(b.0, b.1, b.2)]), Op::Send(d.0, d.1, d.2)]);
                    go(c, vec![Op::Spawn(0, "ctor", vec![Xfer(a.0, s0, a.2), Xfer(b.0, b.1, b.2)], None), Op::Call(s0, "script", vec![Xfer(s0, d.1, d.2)])]);
                }
            }
        }
        // With failing ends, commits and rewinds around.
        for e in [Trap, RetOob, LogOob] {
            go(c, vec![Op::Call(P, "script", vec![Xfer(a.0, a.1, a.2), e]), Op::Call(C, "script", vec![Xfer(C, P, 1)])]);
            go(c, vec![Op::Spawn(0, "ctor", vec![Xfer(a.0, s0, a.2), e], None), Op::Commit]);
        }
        go(c, vec![Op::Send(a.0, a.1, a.2), Op::Commit, Op::Send(a.1, a.0, a.2), Op::Rewind(0), Op::Send(a.0, a.1, a.2)]);
        go(c, vec![Op::Fund(a.0, a.2), Op::Send(a.0, a.1, a.2), Op::Commit]);
    }
    // Spawning what exists already.
    for (script, name) in [(vec![Nop], "nop"), (vec![Set64(0, 1)], "set")] {
        let ops = vec![Op::Spawn(0, "ctor", vec![Xfer(P, s0, 9)], None), Op::Spawn(0, "ctor", script, None)];
        c.case_known("respawn", || format!("respawn {}: {}", name, show(&ops)), |c| {
            let mut w = run(c, &f, &ops[..1])?;
            let before = w.observe()?.total();
            let _ = w.apply_inner(&ops[1]);
            let after = w.observe()?.total();
            if before != after {
                return Err(format!("there were {} coins, now there are {}", before, after));
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------
// V06: accounts don't reach into each other

pub fn v06(c: &mut Ctx) {
    let f = prepare();
    let acts: Vec<Op> = {
        let mut v = vec![
            Op::Spawn(0, "ctor", vec![Set64(0, 1), Set32(1, 2), Store160(2, 3)], None),
            Op::Spawn(1, "ctor", vec![Store160(0, 4), Set64(1, 5), Set32(2, 6)], None),
            Op::Spawn(0, "ctor_empty", vec![], None),
            Op::Spawn(2, "ctor_empty", vec![], None),
            Op::Deploy(LATE, None),
            Op::Fund(C, 5),
            Op::Send(P, C, 2),
            Op::Commit,
            Op::Rewind(0),
            Op::Rewind(1),
        ];
        for (a, t) in [(P, 0), (B, 1), (C, 0), (spawned(0), 0), (spawned(1), 1)] {
            let k = a as u64 + 10;
            if t == 0 {
                v.push(Op::Call(a, "script", vec![Set64(0, k << 40 | 0xff), Set32(1, k as u32 * 77), Store160(2, k as u8)]));
                v.push(Op::Call(a, "script", vec![Set64(3, !k), Get64(0), Load160(2)]));
            } else {
                v.push(Op::Call(a, "script", vec![Store160(0, k as u8), Set64(1, k << 50), Set32(2, 0xffff_ffff)]));
                v.push(Op::Call(a, "script", vec![Set32(3, 0xaabb), Load160(0), Get64(1)]));
            }
        }
        v.push(Op::Call(P, "noargs", vec![]));
        v.push(Op::Call(C, "noargs", vec![]));
        v
    };
    for d in 1..=c.pick(3usize, 4) {
        sequences(acts.len(), d, &mut |v| {
            // A spawned account is used after its spawn, and spawned once.
            let mut have: BTreeSet<usize> = BTreeSet::new();
            let ops: Vec<Op> = v.iter().map(|i| acts[*i].clone()).collect();
            for (n, o) in ops.iter().enumerate() {
                match o {
                    Op::Spawn(t, ..) => {
                        if !have.insert(*t) || n > 0 && matches!(ops[n - 1], Op::Rewind(_)) && d == 4 {
                            return;
                        }
                    }
                    Op::Call(a, ..) if *a >= SPAWNED && !have.contains(&(*a - SPAWNED)) => return,
                    Op::Rewind(_) if n == 0 => return,
                    _ => {}
                }
            }
            if d == 4 && v.windows(2).any(|w| w[0] == w[1]) {
                return;
            }
            case(c, &f, &ops);
        });
    }
    // A template deployed again with other constructors or another layout, or an
    // account spawned again, changes accounts that exist.
    c.case_known("redeploy", || "template deployed again with another layout".into(), |c| {
        c.step();
        let mut w = run(c, &f, &[Op::Spawn(0, "ctor", vec![Set64(0, 0x0102030405060708)], None)])?;
        let code = wat::parse_str(&w.tmpl[0].wat).unwrap();
        let other = deploy_msg(code, &[4, 4, 20, 8, 40], &["ctor"]);
        let _ = w.rt.deploy(&envelope(&w.addrs[P], None), &other, &Context::default());
        let s = w.tokio.block_on(AccountStorage::load(w.gs.clone(), &w.addrs[spawned(0)])).map_err(|e| format!("{:?}", e))?;
        let v = w.tokio.block_on(s.get_var_vec(0)).map_err(|e| format!("{:?}", e))?;
        if v != 0x0102030405060708u64.to_le_bytes() {
            return Err(format!("the variable reads {:?} after somebody else's deployment", v));
        }
        Ok(())
    });
    // Coins of an account that has no part in the transaction.
    for (me, s, d) in [(P, C, P), (P, C, B), (B, C, B), (P, B, P)] {
        c.case_known("debit", || format!("account {} executed, transfer from {} to {}", me, s, d), |c| {
            c.step();
            let mut w = World::new(&f);
            let _ = w.apply_inner(&Op::Call(me, "script", vec![Xfer(s, d, 1)]));
            let after = w.observe()?;
            if after.accts[&s].balance < World::new(&f).model.accts[&s].balance {
                return Err("coins were taken from an account that has no part in the transaction".into());
            }
            Ok(())
        });
    }
    c.case_known("respawn", || "an account spawned again".into(), |c| {
        c.step();
        let ops = [Op::Spawn(0, "ctor", vec![Xfer(P, spawned(0), 9)], None), Op::Spawn(0, "ctor", vec![Nop], None)];
        let mut w = run(c, &f, &ops[..1])?;
        let _ = w.apply_inner(&ops[1]);
        let after = w.observe()?;
        if after.accts[&spawned(0)].balance != 9 {
            return Err("the balance is gone after somebody else's spawn".into());
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------
// V07: what a function may do and who may call it

pub fn v07(c: &mut Ctx) {
    let f = prepare();
    // Verification reads and writes nothing, wherever it tries.
    let accesses = [Set64(0, 1), Set64(0, 0), Set32(1, 1), Get64(0), Get32(1), Store160(2, 1), Load160(2), Xfer(P, C, 1), Xfer(P, P, 1), Xfer(C, P, 50)];
    let harmless = [Nop, Log(1, 3), Ret(1, 2), Xfer(P, C, 0)];
    let mut steps: Vec<St> = vec![];
    steps.extend(accesses);
    steps.extend(harmless);
    for d in 1..=3usize {
        sequences(steps.len(), d, &mut |v| {
            let s: Vec<St> = v.iter().map(|i| steps[*i]).collect();
            if d == 3 && !c.thorough() && v.iter().filter(|i| **i < accesses.len()).count() > 1 {
                return;
            }
            for a in [P, B] {
                if a == B && d > 1 {
                    continue;
                }
                // Then again with access, to see that nothing of the mode is left.
                case(c, &f, &[Op::Verify(a, s.clone()), Op::Call(P, "script", vec![Set64(0, 3), Get64(0)])]);
            }
        });
    }
    // Verification after changes by calls, and of a spawned account.
    for s in &steps {
        case(c, &f, &[Op::Call(P, "script", vec![Set64(0, 8)]), Op::Verify(P, vec![*s]), Op::Call(P, "script", vec![Get64(0)])]);
        case(c, &f, &[Op::Spawn(0, "ctor", vec![Set64(0, 8)], None), Op::Verify(spawned(0), vec![*s]), Op::Call(spawned(0), "script", vec![Get64(0)])]);
    }
    // Allocation reads and writes nothing, within every kind of transaction; and
    // functions without input don't need it.
    for t in ALLOCS {
        for s in [Nop, Set64(0, 1), Get64(0), Log(1, 1), Xfer(P, C, 1)] {
            case(c, &f, &[Op::Spawn(t, "ctor", vec![s], None), Op::Spawn(t, "ctor_empty", vec![], None)]);
            case(c, &f, &[Op::Spawn(t, "ctor_empty", vec![], None), Op::Call(spawned(t), "script", vec![s]), Op::Call(spawned(t), "noargs", vec![])]);
            case(c, &f, &[Op::Spawn(t, "ctor_empty", vec![], None), Op::Verify(spawned(t), vec![s]), Op::Call(spawned(t), "noargs", vec![])]);
            case(c, &f, &[Op::Spawn(t, "ctor_empty", vec![], None), Op::Call(spawned(t), "echo", vec![s])]);
        }
    }
    // Constructors run only when spawning, other functions only when calling.
    let funcs = ["ctor", "ctor_empty", "absent", "imported", "with_param", "with_result", "script", "noargs", "echo", "svm_alloc", "svm_verify", "nope", "memory", "", "Ctor", "ctor ", "ctor_"];
    for a in funcs {
        for s in [vec![], vec![Set64(0, 4)], vec![Xfer(P, C, 2), Log(1, 1)]] {
            for t in [0usize, 1] {
                case(c, &f, &[Op::Spawn(t, a, s.clone(), None)]);
            }
            for acct in [P, B] {
                if matches!(a, "Ctor" | "ctor " | "ctor_") {
                    continue;
                }
                case(c, &f, &[Op::Call(acct, a, s.clone())]);
                for b in funcs {
                    if matches!(b, "Ctor" | "ctor " | "ctor_") {
                        continue;
                    }
                    case(c, &f, &[Op::Call(acct, a, s.clone()), Op::Call(acct, b, vec![Set64(1, 6)])]);
                }
            }
            case(c, &f, &[Op::Spawn(0, "ctor", vec![Set64(0, 1)], None), Op::Call(spawned(0), if a.starts_with('C') || a == "ctor " || a == "ctor_" { "nope" } else { a }, s.clone())]);
        }
    }
}

// ---------------------------------------------------------------------------
// V17: gas of deployments and spawns

/// `n` templates, whose constructors have prices of their own, in one runtime.
fn many_prices(c: &mut Ctx, n: usize, deploys_first: bool, backwards: bool) -> Result<(), String> {
    let t = tokio();
    let gs = t.block_on(GlobalState::in_memory(GenesisConfig { templates: Default::default() }));
    let mut rt = Runtime::new(t.clone(), gs, TemplatePriceCache::new(PriceResolverRegistry::default()));
    let payer = Address::repeat(0x10);
    let env = |gas: u64| Envelope::new(payer.clone(), 0, 0, Gas::with(gas), 0);
    let mut all = vec![];
    for i in 0..n {
        let code = wat::parse_str(format!(
            r#"(module (memory (export "memory") 1)
                (func (export "svm_alloc") (param i32) (result i32) (i32.const 0))
                (func (export "svm_verify") (param) (result i32) (i32.const 0))
                (func (export "ctor") {}))"#,
            "nop ".repeat((i * 37 + 11) % n)
        ))
        .unwrap();
        let p = Program::new(&code, true).map_err(|e| format!("{:?}", e))?;
        let fp = svm_gas::ProgramPricing::new(std::rc::Rc::new(svm_gas::resolvers::V0PriceResolver::default())).visit(&p).unwrap();
        let price = fp.get(p.exports().get("ctor").unwrap()) as u64;
        let addr = compute_template_addr(&CodeSection::new_fixed(code.clone(), 0));
        all.push((deploy_msg(code, &[4], &["ctor"]), addr, price));
    }
    let mut order: Vec<usize> = (0..n).collect();
    if backwards {
        order.reverse();
    }
    if deploys_first {
        for x in &all {
            c.step();
            let r = rt.deploy(&env(u64::MAX), &x.0, &Context::default());
            if !r.success {
                return Err(format!("deploying: {:?}", r));
            }
        }
    }
    for i in order {
        let (msg, addr, price) = &all[i];
        if !deploys_first {
            let r = rt.deploy(&env(u64::MAX), msg, &Context::default());
            if !r.success {
                return Err(format!("deploying: {:?}", r));
            }
        }
        let spawn = SpawnAccount::new(0, addr, "", "ctor", vec![]).encode_to_vec();
        let need = 1000 * spawn.len() as u64 + price;
        for (gas, enough) in [(need - 1, false), (need + 1, true)] {
            c.step();
            let r = no_panic(|| rt.spawn(&env(gas), &spawn, &Context::default()))?;
            if r.success != enough {
                return Err(format!("template {} of {}: its spawn costs {}, with {} it gives {:?}", i, n, need, gas, r));
            }
        }
        c.state(&(n, i, price));
    }
    Ok(())
}

pub fn v17(c: &mut Ctx) {
    let f = prepare();
    for n in [2usize, 17, c.pick(300, 700)] {
        for (first, back) in [(true, false), (true, true), (false, false)] {
            c.case(|| format!("{} templates{}{}", n, if first { ", all deployed first" } else { "" }, if back { ", used backwards" } else { "" }), |c| many_prices(c, n, first, back));
        }
    }
    let around = |p: u64| -> Vec<u64> {
        let mut v = vec![0, 1, 2, p / 2, p.saturating_sub(1001), p.saturating_sub(1000), p.saturating_sub(999)];
        for d in 1..=40 {
            v.push(p.saturating_sub(d));
            v.push(p + d);
        }
        v.extend([p + 999, p + 1000, 2 * p, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX]);
        v.sort();
        v.dedup();
        v
    };
    // Deployments: the price is a thousand per byte.
    for t in [0usize, 1, LATE] {
        let p = 1000 * f.msgs[t].len() as u64;
        let mut v = around(p);
        v.push(p);
        for g in v {
            case(c, &f, &[Op::Deploy(t, Some(g)), Op::Spawn(t, "ctor", vec![Nop], None)]);
            case(c, &f, &[Op::Deploy(t, Some(1)), Op::Deploy(t, Some(g)), Op::Deploy(t, None)]);
        }
    }
    // Spawns: a thousand per byte and the price of the constructor. (With
    // exactly that much the outcome isn't settled.)
    for t in [0usize, 1] {
        for ctor in ["ctor", "ctor_empty", "with_param"] {
            for script in [vec![], vec![Set64(1, 4)], vec![Log(1, 1), Trap]] {
                let data = if script.is_empty() { vec![] } else { encode(&script, &f.addrs) };
                let msg = SpawnAccount::new(0, &f.taddrs[t], "spawned", ctor, data).encode_to_vec();
                let payload = 1000 * msg.len() as u64;
                let price = payload + f.prices[t][ctor];
                let mut v = around(price);
                v.extend(around(payload));
                v.push(payload);
                v.sort();
                v.dedup();
                for g in v {
                    if g == price {
                        continue;
                    }
                    let op = Op::Spawn(t, ctor, script.clone(), Some(g));
                    case(c, &f, &[op.clone()]);
                    // After the price was worked out for another, and again.
                    if c.thorough() || g > price - 2 && g < price + 2 {
                        let other = Op::Spawn(1 - t, "ctor", vec![Nop], None);
                        case(c, &f, &[other.clone(), op.clone()]);
                        case(c, &f, &[Op::Spawn(t, ctor, script.clone(), Some(1)), other.clone(), op.clone()]);
                        case(c, &f, &[Op::Spawn(t, ctor, script.clone(), Some(price - 1)), op.clone()]);
                        case(c, &f, &[Op::Deploy(t, None), op.clone()]);
                    }
                }
            }
        }
    }
    // A limit that is far away or absent doesn't change the outcome.
    for t in [0usize, 1] {
        for script in [vec![Set64(1, 4), Log(1, 2), Ret(3, 4)], vec![Xfer(P, C, 5)]] {
            c.case(|| format!("no limit: {} {:?}", t, script), |c| {
                c.step();
                let mut a = World::new(&f);
                a.apply(&Op::Spawn(t, "ctor", script.clone(), Some(u64::MAX)))?;
                let mut w = World::new(&f);
                let msg = SpawnAccount::new(0, &f.taddrs[t], "spawned", "ctor", encode(&script, &f.addrs)).encode_to_vec();
                let env = Envelope::new(f.addrs[B].clone(), 0, 0, Gas::new(), 0);
                let r = no_panic(|| w.rt.spawn(&env, &msg, &Context::default()))?;
                if !r.success {
                    return Err(format!("{:?}", r));
                }
                let (x, y) = (a.rt.current_layer(), w.rt.current_layer());
                if x != y {
                    return Err(format!("with a limit: {:?}, without: {:?}", x, y));
                }
                let r = no_panic(|| w.rt.deploy(&env, &f.msgs[LATE], &Context::default()))?;
                if !r.success {
                    return Err(format!("deploying without a limit: {:?}", r));
                }
                c.state(&(t, &script));
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------------------
// V20: what the outside sees of a transaction is what it did

pub fn v20(c: &mut Ctx) {
    let f = prepare();
    let mut steps: Vec<St> = vec![
        Nop,
        Set64(0, 0x8877665544332211),
        Get64(0),
        Set64(3, u64::MAX),
        Get64(3),
        Set32(1, 0xfffefdfc),
        Get32(1),
        Get32(0),
        Get64(1),
        Store160(2, 200),
        Set64(0, 0),
        Set32(1, 0),
        Store160(2, 255),
        Load160(2),
        Load160(1),
        Log(9, 0),
        Log(250, 48),
        Log(1, 1),
        Ret(7, 1),
        Ret(8, 48),
        Xfer(P, C, 2),
        Xfer(C, B, 3),
        Xfer(P, P, 1),
        Xfer(P, C, 0),
        Trap,
    ];
    if c.thorough() {
        steps.extend([Set64(1, 5), Store160(1, 3), Xfer(B, C, 9), DivZero, LogOob]);
    }
    for d in 1..=3usize {
        sequences(steps.len(), d, &mut |v| {
            let s: Vec<St> = v.iter().map(|i| steps[*i]).collect();
            // Nothing runs after a trap.
            if s[..d - 1].contains(&Trap) || d == 3 && s.contains(&Nop) {
                return;
            }
            if d == 3 && !c.thorough() {
                // Three steps: those that tell something about one another.
                let (wr, rd) = (
                    s.iter().filter(|x| matches!(x, Set64(..) | Set32(..) | Store160(..) | Xfer(..))).count(),
                    s.iter().filter(|x| matches!(x, Get64(..) | Get32(..) | Load160(..) | Log(..) | Ret(..) | Trap)).count(),
                );
                if wr != 1 || rd != 2 {
                    return;
                }
            }
            case(c, &f, &[Op::Call(P, "script", s.clone())]);
            if d < 3 {
                case(c, &f, &[Op::Spawn(0, "ctor", s.clone(), None)]);
                case(c, &f, &[Op::Call(P, "script", vec![Set64(0, 5), Set32(1, 6), Store160(2, 7)]), Op::Call(P, "script", s.clone())]);
                case(c, &f, &[Op::Verify(P, s.clone())]);
                case(c, &f, &[Op::Call(C, "echo", s.clone()), Op::Call(C, "script", s.clone())]);
            }
        });
    }
    // Calldata of every length (there is one byte to tell it) comes back as it went in.
    for n in 1..=255usize {
        c.case(|| format!("echo of {} bytes", n), |c| {
            c.step();
            c.state(&n);
            let mut w = World::new(&f);
            let data: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8 ^ n as u8).collect();
            let tx = Transaction { version: 0, target: w.addrs[P].clone(), func_name: "echo".into(), calldata: data.clone(), verifydata: vec![] };
            let r = no_panic(|| w.rt.call(&envelope(&w.addrs[P], None), &tx.encode_to_vec(), &Context::default()))?;
            if !r.success || r.returndata.as_ref() != Some(&data) {
                return Err(format!("{:?}", r));
            }
            Ok(())
        });
    }
    crate::mem::cases(c);
}
