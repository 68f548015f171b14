//! V21, V22: templates written with the SDK, run on the chain, and the
//! transactions that the command line tool crafts for them.
//!
//! `harness/templates` has templates with every pair of parameter types, every
//! array, every pair of neighbouring variables, and more; `check.sh` compiles
//! them with the SDK of the tree. Here they are deployed and called, and what
//! they return, store and log is compared with what their source says, by an
//! ABI of the harness' own.

use std::path::PathBuf;
use std::process::Command;

use serde_json::{json, Value as Json};
use svm_codec::Codec;
use svm_layout::{FixedLayout, Layout};
use svm_runtime::{PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_state::{AccountStorage, GlobalState};
use svm_gas::resolvers::ExampleResolver;
use svm_gas::ProgramPricing;
use svm_program::ProgramVisitor;
use svm_types::*;
use tokio::runtime::Runtime as Tokio;
use vh_core::{hex, no_panic, product, sequences, Ctx};

use crate::env::*;
use crate::tpl_table::{ARRAYS, PRIMS, STORAGE};

// --------------------------------------------------------------- reference

const BOOL: usize = 0;
const AMOUNT: usize = 9;
const ADDRESS: usize = 10;

/// Width and sign of the integers.
fn int(p: usize) -> (u8, bool) {
    [(1, true), (1, false), (2, true), (2, false), (4, true), (4, false), (8, true), (8, false)][p - 1]
}

fn byte_size(p: usize) -> u32 {
    match p {
        BOOL => 1,
        AMOUNT => 8,
        ADDRESS => 20,
        p => int(p).0 as u32,
    }
}

#[derive(Clone, Debug, PartialEq, Hash)]
enum V {
    Bool(bool),
    /// Kind of integer and value, sign-extended.
    Int(usize, i128),
    Amount(u64),
    Addr([u8; 20]),
    Arr(Vec<V>),
}

fn be(n: u64, w: u8) -> Vec<u8> {
    (0..w).rev().map(|i| (n >> (8 * i)) as u8).collect()
}

fn width(n: u64) -> u8 {
    (1..8).find(|w| n >> (8 * w) == 0).unwrap_or(8)
}

/// The encoding of a value, by the table in the documentation of the ABI.
fn enc(v: &V) -> Vec<u8> {
    match v {
        V::Bool(b) => vec![if *b { 0x10 } else { 0x00 }],
        V::Addr(a) => [&[0x40], &a[..]].concat(),
        V::Amount(n) => [vec![(width(*n) - 1) << 4 | 1], be(*n, width(*n))].concat(),
        V::Int(p, n) => {
            let (bytes, sign) = int(*p);
            let n = (*n as u64) & if bytes == 8 { u64::MAX } else { (1 << (8 * bytes)) - 1 };
            let w = width(n);
            let m = match (bytes, sign) {
                (1, true) => 0x02,
                (1, false) => 0x12,
                (2, true) => (2 + w - 1) << 4 | 2,
                (2, false) => (4 + w - 1) << 4 | 2,
                (4, true) => (w - 1) << 4 | 3,
                (4, false) => (4 + w - 1) << 4 | 3,
                (8, true) => (w - 1) << 4 | 4,
                _ => (w - 1) << 4 | 5,
            };
            [vec![m], be(n, w)].concat()
        }
        V::Arr(a) => {
            let n = a.len() as u8;
            let mut r = vec![if n < 8 { n << 4 | 6 } else { (n - 8) << 4 | 7 }];
            a.iter().for_each(|v| r.extend(enc(v)));
            r
        }
    }
}

fn enc_all(vs: &[V]) -> Vec<u8> {
    vs.iter().flat_map(enc).collect()
}

fn address(seed: u8) -> [u8; 20] {
    let mut a = [0; 20];
    (0..20).for_each(|i| a[i] = seed.wrapping_add(i as u8 * 11));
    a
}

/// Values of the type, the most telling ones first.
fn values(p: usize) -> Vec<V> {
    match p {
        BOOL => vec![V::Bool(true), V::Bool(false)],
        AMOUNT => [0x0102_0304_0506_0708u64, 0, u64::MAX, 1, 255, 256, 1 << 32, 1 << 63].iter().map(|n| V::Amount(*n)).collect(),
        ADDRESS => vec![V::Addr(address(1)), V::Addr([0xFF; 20]), V::Addr([0; 20]), V::Addr(address(0x80))],
        p => {
            let (bytes, sign) = int(p);
            let bits = 8 * bytes as u32;
            let (min, max) = if sign { (-(1i128 << (bits - 1)), (1 << (bits - 1)) - 1) } else { (0, (1 << bits) - 1) };
            let mut v = vec![0x7162_5344_3526_1708 >> (64 - bits), if sign { min } else { max }, if sign { -1 } else { 0 }, max, 0, 1, max / 256, max / 256 + 1, max / 2, max / 2 + 1];
            if sign {
                v.extend([min + 1, -2, min / 2, min / 256, min / 256 - 1]);
            }
            let mut out: Vec<V> = vec![];
            for n in v {
                let n = V::Int(p, n.max(min).min(max));
                if !out.contains(&n) {
                    out.push(n);
                }
            }
            out
        }
    }
}

// ------------------------------------------------------------------- files

fn dir(of: &str) -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap()).join("target").join(of)
}

fn wasm(name: &str) -> PathBuf {
    dir("templates").join("wasm32-unknown-unknown/release/examples").join(format!("{}.wasm", name.to_lowercase()))
}

fn meta(name: &str) -> PathBuf {
    dir("templates-src").join(format!("{}-meta.json", name))
}

/// The lengths of the variables a template declares.
fn layout(name: &str) -> Vec<u32> {
    match name.chars().next().unwrap() {
        'S' => {
            let fields = STORAGE[name[1..].parse::<usize>().unwrap()];
            fields.iter().flat_map(|(p, n)| vec![byte_size(*p); (*n).max(1) as usize]).collect()
        }
        'L' => vec![4, 20, 8, 8],
        _ => vec![],
    }
}

fn names() -> Vec<String> {
    let mut v: Vec<String> = (0..PRIMS.len()).map(|i| format!("P{}", i)).collect();
    v.push("A".into());
    v.extend((0..STORAGE.len()).map(|i| format!("S{}", i)));
    v.push("L".into());
    v
}

// -------------------------------------------------------------- on the chain

pub struct Chain {
    pub rt: Runtime,
    pub gs: GlobalState,
    pub tokio: std::sync::Arc<Tokio>,
    pub env: Envelope,
    pub ctx: Context,
    pub me: Address,
    pub vars: Vec<Vec<u8>>,
}

impl Chain {
    pub fn with_template(code: Vec<u8>, sizes: &[u32]) -> Chain {
        let tokio = tokio();
        let gs = tokio.block_on(GlobalState::in_memory(no_genesis()));
        let rt = Runtime::new(tokio.clone(), gs.clone(), TemplatePriceCache::new(PriceResolverRegistry::default()));
        let env = Envelope::new(addr(9), 0, 0, Gas::new(), 0);
        let ctx = Context::new(TransactionId::zeros(), Layer(0), State::zeros());
        let mut c = Chain { rt, gs, tokio, env, ctx, me: addr(3), vars: sizes.iter().map(|n| vec![0; *n as usize]).collect() };
        c.deploy(code, sizes);
        c
    }

    /// Another template and account, in the same chain.
    fn deploy(&mut self, code: Vec<u8>, sizes: &[u32]) {
        let t = Template::new(
            CodeSection::new_fixed(code, 0),
            DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, sizes))),
            CtorsSection::new(vec!["initialize".into()]),
        );
        let r = self.rt.deploy(&self.env, &svm_codec::template::encode(&t), &self.ctx);
        assert!(r.success, "deploying failed: {:?}", r);
        self.rt.create_account(&self.me, r.template_addr().clone(), "me".into(), 5, 0).unwrap();
        self.vars = sizes.iter().map(|n| vec![0; *n as usize]).collect();
    }

    fn of(name: &str) -> Chain {
        let code = std::fs::read(wasm(name)).unwrap();
        Chain::with_template(code, &layout(name))
    }

    fn call_tx(&mut self, msg: &[u8]) -> Result<(bool, Option<Vec<u8>>, Vec<Vec<u8>>, String), String> {
        let r = no_panic(|| self.rt.call(&self.env, msg, &self.ctx))?;
        let logs = r.logs.iter().map(|l| l.as_bytes().to_vec()).collect();
        Ok((r.success, r.returndata, logs, format!("{:?}", r.error)))
    }

    pub fn tx(&self, f: &str, calldata: &[u8]) -> Vec<u8> {
        let tx = Transaction { version: 0, target: self.me.clone(), func_name: f.into(), verifydata: vec![], calldata: calldata.to_vec() };
        tx.encode_to_vec()
    }

    fn call(&mut self, f: &str, args: &[V]) -> Result<(bool, Option<Vec<u8>>, Vec<Vec<u8>>, String), String> {
        let tx = self.tx(f, &enc_all(args));
        self.call_tx(&tx)
    }

    pub fn read(&self) -> Result<Vec<Vec<u8>>, String> {
        let a = self.tokio.block_on(AccountStorage::load(self.gs.clone(), &self.me)).map_err(|e| format!("{:?}", e))?;
        (0..self.vars.len()).map(|i| self.tokio.block_on(a.get_var_vec(i as u32)).map_err(|e| format!("{:?}", e))).collect()
    }

    /// The template of an account.
    pub async fn account(&self, a: &Address) -> Result<TemplateAddr, String> {
        let a = AccountStorage::load(self.gs.clone(), a).await.map_err(|e| format!("{:?}", e))?;
        a.template_addr().await.map_err(|e| format!("{:?}", e))
    }

    pub fn balance(&self, a: &Address) -> u64 {
        self.tokio.block_on(async { AccountStorage::load(self.gs.clone(), a).await.unwrap().balance().await.unwrap() })
    }

    /// The variables have to be what they were, but for the one given.
    pub fn unchanged(&mut self, but: Option<usize>) -> Result<(), String> {
        let now = self.read()?;
        for (i, (a, b)) in self.vars.iter().zip(&now).enumerate() {
            if Some(i) != but && a != b {
                return Err(format!("variable {} was {} and is {}", i, hex(a), hex(b)));
            }
        }
        self.vars = now;
        Ok(())
    }
}

fn returns(what: &str, got: (bool, Option<Vec<u8>>, Vec<Vec<u8>>, String), want: Option<&[V]>) -> Result<(), String> {
    let (ok, ret, logs, error) = got;
    if !ok {
        return Err(format!("{} failed: {}", what, error));
    }
    let got = ret.unwrap_or_default();
    let want = want.map_or(vec![], enc_all);
    if got != want {
        return Err(format!("{} returned {} instead of {}", what, hex(&got), hex(&want)));
    }
    if !logs.is_empty() {
        return Err(format!("{} logged {:?}", what, logs));
    }
    Ok(())
}

/// What an endpoint has to return for its arguments.
type Endpoint = (String, Vec<V>, Option<Vec<V>>);

/// The calls of the templates without storage.
fn calls(name: &str, n: usize) -> Vec<Endpoint> {
    let mut out: Vec<Endpoint> = vec![];
    if name == "A" {
        let a: Vec<V> = [1u8, 60, 120, 180].iter().map(|s| V::Addr(address(*s))).collect();
        for len in 1..=3 {
            sequences(4, len, &mut |v| {
                let f: String = v.iter().map(|i| i.to_string()).collect();
                out.push((format!("a{}", f), a.clone(), Some(v.iter().map(|i| a[*i].clone()).collect())));
            });
        }
        return out;
    }
    let i: usize = name[1..].parse().unwrap();
    let vi = values(i);
    let addrs = values(ADDRESS);
    let amounts = values(AMOUNT);
    for j in 0..PRIMS.len() {
        let vj = values(j);
        for a in vi.iter().take(n) {
            for b in vj.iter().take(n) {
                out.push((format!("pair_{}", j), vec![a.clone(), b.clone()], Some(vec![b.clone(), a.clone()])));
            }
        }
    }
    for a in &vi {
        out.push(("one".into(), vec![a.clone()], Some(vec![a.clone()])));
    }
    out.push(("drop".into(), vec![vi[0].clone()], None));
    for len in ARRAYS {
        for shift in 0..vi.len().min(n + 2) {
            let a = V::Arr((0..*len).map(|k| vi[(k + shift) % vi.len()].clone()).collect());
            out.push((format!("arr_{}", len), vec![a.clone()], Some(vec![a])));
        }
    }
    for shift in 0..vi.len().min(n) {
        let at = |k: usize| vi[(k + shift) % vi.len()].clone();
        let a = V::Arr(vec![at(0), at(1)]);
        let b = addrs[shift % addrs.len()].clone();
        let c = V::Arr(vec![at(2), at(3), at(4)]);
        let d = amounts[shift % amounts.len()].clone();
        out.push(("mix".into(), vec![a.clone(), b.clone(), c.clone(), d.clone()], Some(vec![d, c, b, a])));
    }
    for shift in 0..n {
        let args: Vec<V> = (0..10).map(|k| {
            let v = values((i + k) % PRIMS.len());
            v[(k + shift) % v.len()].clone()
        }).collect();
        out.push(("many".into(), args.clone(), Some(vec![args[9].clone(), args[0].clone(), args[5].clone()])));
    }
    out
}

fn parameters(c: &mut Ctx, name: &str, only: usize, of: usize, n: usize) -> Result<(), String> {
    let mut chain = Chain::of(name);
    for (k, (f, args, want)) in calls(name, n).into_iter().enumerate() {
        if k % of != only {
            continue;
        }
        c.step();
        let what = format!("{}::{}{:?}", name, f, args);
        let got = chain.call(&f, &args)?;
        returns(&what, got, want.as_deref())?;
        c.state(&(name, f, args));
    }
    Ok(())
}

/// Every element of the variables from `from` on is set and read back; all the
/// others must stay what they are.
fn storage(c: &mut Ctx, name: &str, from: usize, to: usize, n: usize) -> Result<(), String> {
    let mut chain = Chain::of(name);
    let fields = STORAGE[name[1..].parse::<usize>().unwrap()];
    let mut id = 0;
    for (k, (p, len)) in fields.iter().enumerate() {
        let first = id;
        id += (*len).max(1) as usize;
        if k < from || k >= to {
            continue;
        }
        let all = values(*p);
        // Of long arrays, the elements at borders.
        let some = [0i128, 1, 2, 7, 8, 9, 10, 15, 16, 19, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 298, 299];
        let visited: Vec<i128> = (0..(*len).max(1) as i128).filter(|i| *len <= 3 || some.contains(i)).collect();
        for &i in &visited {
            let idx: Vec<V> = if *len == 0 { vec![] } else { vec![V::Int(6, i)] };
            // Non-zero values last, so that neighbours that are written later are seen.
            // A value is replaced by zero, too.
            let zero = match p {
                &BOOL => V::Bool(false),
                &AMOUNT => V::Amount(0),
                &ADDRESS => V::Addr([0; 20]),
                p => V::Int(*p, 0),
            };
            for v in all.iter().take(n).rev().chain([&zero, &all[0]]) {
                let args = [&idx[..], &[v.clone()]].concat();
                let what = format!("{}::set_f{}{:?}", name, k, args);
                c.step();
                let got = chain.call(&format!("set_f{}", k), &args)?;
                returns(&what, got, None)?;
                chain.unchanged(Some(first + i as usize)).map_err(|e| format!("{}: {}", what, e))?;
                let what = format!("{}::get_f{}{:?}", name, k, idx);
                c.step();
                let got = chain.call(&format!("get_f{}", k), &idx)?;
                returns(&what, got, Some(&[v.clone()]))?;
                chain.unchanged(None).map_err(|e| format!("{}: {}", what, e))?;
                c.state(&(name, k, i, v));
            }
        }
        // The elements keep their values once all are written.
        for &i in visited.iter().filter(|_| *len > 0) {
            let got = chain.call(&format!("get_f{}", k), &[V::Int(6, i)])?;
            returns(&format!("{}::get_f{}({})", name, k, i), got, Some(&all[..1]))?;
        }
        // Outside of the array.
        if *len > 0 {
            for i in [*len as i128, *len as i128 + 1, *len as i128 + 255, *len as i128 + 256, u32::MAX as i128] {
                c.step();
                for (f, args) in [("set", vec![V::Int(6, i), all[0].clone()]), ("get", vec![V::Int(6, i)])] {
                    let what = format!("{}::{}_f{}({})", name, f, k, i);
                    if let Ok((true, ..)) = chain.call(&format!("{}_f{}", f, k), &args) {
                        return Err(format!("{} succeeded with {} elements", what, len));
                    }
                    chain.unchanged(None).map_err(|e| format!("{}: {}", what, e))?;
                }
            }
        }
    }
    Ok(())
}

/// What the logging template has done: the variable, the address, the array.
fn logging(c: &mut Ctx, steps: &[usize]) -> Result<(), String> {
    let mut chain = Chain::of("L");
    let mut n = 0u32;
    let who = address(77);
    let text = |b: &[u8]| String::from_utf8_lossy(b).to_string();
    for s in steps {
        c.step();
        let u32v = |n: u32| V::Int(6, n as i128);
        let u64v = |n: u64| V::Int(8, n as i128);
        let (f, args, ret, logs, ok): (&str, Vec<V>, Vec<V>, Vec<String>, bool) = match s {
            0 => ("add", vec![u32v(5)], vec![u32v(n + 5)], vec![], true),
            1 => ("add_twice", vec![u32v(1 << 20)], vec![u32v(n + (1 << 20)), u32v(n + (2 << 20))], vec![], true),
            2 => ("keep_if", vec![V::Bool(false), V::Addr([3; 20]), u64v(3)], vec![], vec![], false),
            3 => ("keep_if", vec![V::Bool(true), V::Addr(who), u64v(u64::MAX - 1)], vec![], vec![], true),
            4 => ("log_number", vec![u32v(4_000_000_123)], vec![], vec!["4000000123".into()], true),
            5 => ("log_amount", vec![V::Amount(u64::MAX)], vec![], vec![format!("{} coins", u64::MAX)], true),
            6 => ("log_address", vec![V::Addr(who)], vec![], vec![format!("0x{}", hex(&who))], true),
            7 => ("log_built", vec![V::Int(2, 200), u64v(12_345_678_901)], vec![u64v(12_345_678_901)], vec!["20012345678901".into(), "200".into()], true),
            8 => ("log_host", vec![V::Int(2, 1), V::Bool(false)], vec![], vec!["first".into(), "".into(), "and third".into()], true),
            9 => ("log_host", vec![V::Int(2, 1), V::Bool(true)], vec![], vec!["first".into(), "".into()], false),
            _ => unreachable!(),
        };
        let what = format!("L::{}{:?} after {:?}", f, args, steps);
        let got = chain.call(f, &args);
        let before = chain.vars.clone();
        chain.vars = chain.read()?;
        if !ok {
            match got {
                Ok((true, ..)) => return Err(format!("{} succeeded", what)),
                Ok((_, _, l, _)) if !logs.is_empty() => {
                    let l: Vec<String> = l.iter().map(|l| text(l)).collect();
                    if l != logs {
                        return Err(format!("{} logged {:?}", what, l));
                    }
                }
                _ => {}
            }
            if chain.vars != before {
                return Err(format!("{} failed, but changed the variables", what));
            }
            continue;
        }
        let (success, data, l, error) = got?;
        if !success {
            return Err(format!("{} failed: {}", what, error));
        }
        let l: Vec<String> = l.iter().map(|l| text(l)).collect();
        if l.len() != logs.len() || l.iter().zip(&logs).any(|(a, b)| !a.eq_ignore_ascii_case(b)) {
            return Err(format!("{} logged {:?} instead of {:?}", what, l, logs));
        }
        if data.unwrap_or_default() != enc_all(&ret) {
            return Err(format!("{} didn't return {:?}", what, ret));
        }
        let le = |n: u64, w: usize| n.to_le_bytes()[..w].to_vec();
        match s {
            0 => n += 5,
            1 => n += 2 << 20,
            3 => n = 7,
            _ => {}
        }
        let mut want = before;
        want[0] = le(n as u64, 4);
        if *s == 3 {
            want[1] = who.to_vec();
            want[3] = le(u64::MAX - 1, 8);
        }
        if chain.vars != want {
            return Err(format!("{} left the variables {:?} instead of {:?}", what, chain.vars, want));
        }
    }
    c.state(steps);
    Ok(())
}

// ------------------------------------------------------- the host's allocator

/// A template that asks for blocks of these sizes and keeps where they lie.
fn allocating(pages: u32, input: usize, sizes: &[u64]) -> Vec<u8> {
    // There is no place to ask for without input.
    let mut run = String::from(if input > 0 { "(call $set (i32.const 0) (call $at))\n" } else { "" });
    for (i, n) in sizes.iter().enumerate() {
        run += &format!("(call $set (i32.const {}) (call $alloc (i32.const {})))\n", i + 1, *n as u32 as i32);
    }
    wat::parse_str(format!(
        r#"(module
        (import "svm" "svm_static_alloc" (func $alloc (param i32) (result i32)))
        (import "svm" "svm_calldata_offset" (func $at (result i32)))
        (import "svm" "svm_set32" (func $set (param i32 i32)))
        (memory (export "memory") {})
        (func (export "svm_alloc") (param i32) (result i32) (call $alloc (local.get 0)))
        (func (export "svm_verify") (result i32) (i32.const 0))
        (func (export "initialize"))
        (func (export "run") {}))"#,
        pages, run
    ))
    .unwrap()
}

fn blocks(c: &mut Ctx, pages: u32, input: usize, sizes: &[u64]) -> Result<(), String> {
    c.step();
    let vars = vec![4u32; sizes.len() + 1];
    let mut chain = Chain::with_template(allocating(pages, input, sizes), &vars);
    let memory = pages as u64 * 65536;
    let data: Vec<u8> = (0..input).map(|i| i as u8).collect();
    let tx = chain.tx("run", &data);
    let r = chain.call_tx(&tx);
    let asked: u64 = sizes.iter().sum::<u64>() + input as u64;
    let fits = asked + 16 * (sizes.len() as u64 + 2) <= memory && sizes.iter().all(|n| *n > 0);
    let ok = matches!(r, Ok((true, ..)));
    if !ok {
        chain.unchanged(None)?;
        c.state(&(pages, input, sizes, 0));
        return if fits { Err(format!("{} pages: no room for {} bytes and {:?}: {:?}", pages, input, sizes, r)) } else { Ok(()) };
    }
    let at: Vec<u64> = chain.read()?.iter().map(|v| v.iter().rev().fold(0, |a, b| a << 8 | *b as u64)).collect();
    let mut all: Vec<(u64, u64)> = at[1..].iter().zip(sizes).map(|(a, n)| (*a, *n)).collect();
    if input > 0 {
        all.push((at[0], input as u64));
    }
    for (i, (a, n)) in all.iter().enumerate() {
        if *a == 0 || a + n > memory {
            return Err(format!("{} pages, input of {} bytes, blocks {:?}: a block of {} bytes at {}", pages, input, sizes, n, a));
        }
        for (b, m) in &all[..i] {
            if a < &(b + m) && b < &(a + n) {
                return Err(format!("{} pages, input of {} bytes, blocks {:?}: {} bytes at {} and {} bytes at {} overlap", pages, input, sizes, n, a, m, b));
            }
        }
    }
    c.state(&(pages, input, sizes, 1));
    Ok(())
}

pub fn v21(c: &mut Ctx) {
    let n = c.pick(2usize, 8);
    for name in names() {
        match &name[..1] {
            "P" | "A" => {
                let parts = c.pick(4, 40);
                for k in 0..parts {
                    c.case(|| format!("parameters: {} part {} of {}", name, k, parts), |c| parameters(c, &name, k, parts, n));
                }
            }
            "S" => {
                let step = c.pick(9, 3);
                let fields = STORAGE[name[1..].parse::<usize>().unwrap()].len();
                for from in (0..fields).step_by(step) {
                    c.case(|| format!("variables: {} from {}", name, from), |c| storage(c, &name, from, from + step, n));
                }
            }
            _ => {}
        }
    }
    for len in 1..=c.pick(2, 3) {
        sequences(10, len, &mut |v| {
            c.case(|| format!("logging: {:?}", v), |c| logging(c, v));
        });
    }
    let some = [1u64, 2, 7, 8, 9, 20, 100, 30000];
    for pages in [1u32, 2] {
        for input in [0usize, 1, 8, 100] {
            for len in 0..=c.pick(2, 4) {
                sequences(some.len(), len, &mut |v| {
                    let sizes: Vec<u64> = v.iter().map(|i| some[*i]).collect();
                    c.case(|| format!("blocks: {} pages, input {}, {:?}", pages, input, sizes), |c| blocks(c, pages, input, &sizes));
                });
            }
            for big in [0u64, 65000, 65528, 65535, 65536, 65537, 131072, 131073, 1 << 31, u32::MAX as u64 - 7, u32::MAX as u64] {
                for sizes in [vec![big], vec![big, 1], vec![1, big], vec![20, big, 20], vec![big, big]] {
                    c.case(|| format!("blocks: {} pages, input {}, {:?}", pages, input, sizes), |c| blocks(c, pages, input, &sizes));
                }
            }
        }
    }
}

// ------------------------------------------------------ the command line tool

fn cli(args: &[&str]) -> Result<std::process::Output, String> {
    Command::new(dir("cli").join("debug/svm-cli")).args(args).output().map_err(|e| format!("svm-cli: {}", e))
}

/// A scratch directory of this process.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        let d = dir("cli").join(format!("scratch-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&d);
        Scratch(d)
    }

    fn path(&self, name: &str) -> String {
        self.0.join(name).display().to_string()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn type_of(p: usize) -> &'static str {
    PRIMS[p]
}

/// The metadata the SDK has to write for a template, in no particular order.
fn expected_meta(name: &str) -> (Vec<Json>, Vec<Json>) {
    let func = |f: &str, ctor: bool, params: Vec<Json>, returns: Json| json!({ "name": f, "wasm_name": f, "doc": "", "is_ctor": ctor, "is_fundable": false, "signature": { "params": params, "returns": returns } });
    let prim = |n: &str, p: usize| json!({ "name": n, "type": type_of(p) });
    let arr = |n: &str, p: usize, l: usize| json!({ "name": n, "type": format!("[{}]", type_of(p)), "length": l });
    let ret = |p: usize| json!({ "type": type_of(p) });
    let ret_arr = |p: usize, l: usize| json!({ "type": type_of(p), "length": l });
    let none = json!({});
    let mut api = vec![func("initialize", true, vec![], none.clone())];
    let mut schema = vec![];
    match &name[..1] {
        "P" => {
            let i: usize = name[1..].parse().unwrap();
            for j in 0..PRIMS.len() {
                api.push(func(&format!("pair_{}", j), false, vec![prim("a", i), prim("b", j)], json!([ret(j), ret(i)])));
            }
            api.push(func("one", false, vec![prim("a", i)], ret(i)));
            api.push(func("drop", false, vec![prim("_a", i)], none));
            for l in ARRAYS {
                api.push(func(&format!("arr_{}", l), false, vec![arr("a", i, *l)], ret_arr(i, *l)));
            }
            let of = |k: usize| (i + k) % PRIMS.len();
            let many = (0..10).map(|k| prim(&format!("a{}", k), of(k))).collect();
            api.push(func("many", false, many, json!([ret(of(9)), ret(of(0)), ret(of(5))])));
            let params = vec![arr("a", i, 2), prim("b", ADDRESS), arr("c", i, 3), prim("d", AMOUNT)];
            api.push(func("mix", false, params, json!([ret(AMOUNT), ret_arr(i, 3), ret(ADDRESS), ret_arr(i, 2)])));
        }
        "A" => {
            let params: Vec<Json> = (0..4).map(|i| prim(&format!("a{}", i), ADDRESS)).collect();
            for (f, _, r) in calls("A", 0) {
                let n = r.unwrap().len();
                let r = if n == 1 { ret(ADDRESS) } else { Json::Array(vec![ret(ADDRESS); n]) };
                api.push(func(&f, false, params.clone(), r));
            }
        }
        "S" => {
            let (mut id, mut offset) = (0, 0);
            for (k, (p, len)) in STORAGE[name[1..].parse::<usize>().unwrap()].iter().enumerate() {
                let f = format!("f{}", k);
                let size = byte_size(*p);
                let n = (*len).max(1);
                let idx = if *len > 0 { vec![prim("i", 6)] } else { vec![] };
                let mut set = idx.clone();
                set.push(prim("v", *p));
                api.push(func(&format!("set_{}", f), false, set, json!({})));
                api.push(func(&format!("get_{}", f), false, idx, ret(*p)));
                let mut var = json!({ "id": id, "name": f, "offset": offset, "byte_count": size, "type": type_of(*p) });
                if *len > 0 {
                    var["type"] = json!(format!("[{}]", type_of(*p)));
                    var["length"] = json!(len);
                }
                schema.push(var);
                id += n;
                offset += n * size;
            }
        }
        _ => {
            api.push(func("with_n", true, vec![prim("n", 6)], json!({})));
            api.push(func("add", false, vec![prim("by", 6)], ret(6)));
            api.push(func("add_twice", false, vec![prim("by", 6)], json!([ret(6), ret(6)])));
            api.push(func("keep_if", false, vec![prim("b", 0), prim("who", ADDRESS), prim("v", 8)], json!({})));
            api.push(func("log_number", false, vec![prim("n", 6)], json!({})));
            api.push(func("log_amount", false, vec![prim("n", AMOUNT)], json!({})));
            api.push(func("log_address", false, vec![prim("a", ADDRESS)], json!({})));
            api.push(func("log_built", false, vec![prim("a", 2), prim("b", 8)], ret(8)));
            api.push(func("log_host", false, vec![prim("code", 2), prim("fail", 0)], json!({})));
            schema.push(json!({ "id": 0, "name": "n", "offset": 0, "byte_count": 4, "type": "u32" }));
            schema.push(json!({ "id": 1, "name": "who", "offset": 4, "byte_count": 20, "type": "Address" }));
            schema.push(json!({ "id": 2, "name": "log", "offset": 24, "byte_count": 8, "type": "[u64]", "length": 2 }));
        }
    }
    (api, schema)
}

/// The metadata says what the source says, and the transaction crafted of it
/// and the code is the template.
fn crafted(c: &mut Ctx, name: &str, s: &Scratch) -> Result<(), String> {
    let text = std::fs::read_to_string(meta(name)).map_err(|e| format!("{}: {}", meta(name).display(), e))?;
    // A type may be named with its path, where it's declared so.
    let text = text.replace("svm_sdk :: ", "").replace("svm_sdk::", "");
    let m: Json = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let (api, schema) = expected_meta(name);
    let got = m["api"].as_array().cloned().unwrap_or_default();
    for f in &api {
        if !got.contains(f) {
            return Err(format!("the metadata of {} lacks {}: {:?}", name, f, got.iter().find(|g| g["name"] == f["name"])));
        }
    }
    if got.len() != api.len() {
        return Err(format!("the metadata of {} has {} functions instead of {}", name, got.len(), api.len()));
    }
    if m["schema"] != Json::Array(schema.clone()) {
        return Err(format!("the metadata of {} has the variables {} instead of {}", name, m["schema"], Json::Array(schema)));
    }
    c.step();
    let code = std::fs::read(wasm(name)).unwrap();
    let want_ctors: Vec<&str> = if name == "L" { vec!["initialize", "with_n"] } else { vec!["initialize"] };
    craft(&code, &text, &layout(name), &want_ctors, s)?;
    c.state(name);
    Ok(())
}

fn craft(code: &[u8], meta: &str, sizes: &[u32], ctors: &[&str], s: &Scratch) -> Result<(), String> {
    let (w, m, o) = (s.path("x.wasm"), s.path("meta.json"), s.path("out"));
    std::fs::write(&w, code).unwrap();
    std::fs::write(&m, meta).unwrap();
    let r = cli(&["craft-deploy", "--smwasm", &w, "--meta", &m, "--output", &o])?;
    if !r.status.success() {
        return Err(format!("craft-deploy failed: {}", String::from_utf8_lossy(&r.stderr)));
    }
    let msg = std::fs::read(&o).map_err(|e| e.to_string())?;
    let t = svm_codec::template::decode(&mut std::io::Cursor::new(&msg[..]), None).map_err(|e| format!("{:?}", e))?;
    if t.code() != code {
        return Err("the template crafted has other code".into());
    }
    let cs = t.code_section();
    if cs.svm_version() != 0 || cs.gas_mode() != GasMode::Fixed || cs.kind() != CodeKind::Wasm || cs.flags() != CodeSection::exec_flags() {
        return Err(format!("the code section crafted is {:?}", (cs.kind(), cs.flags(), cs.gas_mode(), cs.svm_version())));
    }
    let mut got: Vec<&str> = t.ctors().iter().map(|s| &s[..]).collect();
    got.sort_unstable();
    if got != ctors {
        return Err(format!("the template crafted has the constructors {:?} instead of {:?}", got, ctors));
    }
    let layouts = t.data_section().layouts();
    if layouts.len() != 1 {
        return Err(format!("the template crafted has {} layouts", layouts.len()));
    }
    let want = Layout::Fixed(FixedLayout::from_byte_sizes(0, sizes));
    if layouts[0] != want {
        return Err(format!("the template crafted has the variables {:?} instead of {:?}", layouts[0], sizes));
    }
    Ok(())
}

fn to_json(v: &V) -> (Json, Json) {
    match v {
        V::Bool(b) => (json!("bool"), json!(b)),
        V::Int(p, n) if int(*p).1 => (json!(PRIMS[*p]), json!(*n as i64)),
        V::Int(p, n) => (json!(PRIMS[*p]), json!(*n as u64)),
        V::Amount(n) => (json!("amount"), json!(n)),
        V::Addr(a) => (json!("address"), json!(hex(a))),
        V::Arr(a) => {
            let v: Vec<(Json, Json)> = a.iter().map(to_json).collect();
            (json!([v[0].0]), Json::Array(v.into_iter().map(|x| x.1).collect()))
        }
    }
}

fn input(vs: &[V]) -> Json {
    let (abi, data): (Vec<Json>, Vec<Json>) = vs.iter().map(to_json).unzip();
    json!({ "abi": abi, "data": data })
}

fn crafted_call(c: &mut Ctx, s: &Scratch, version: u16, f: &str, verify: &[V], args: &[V]) -> Result<(), String> {
    c.step();
    let target = address(40);
    let doc = json!({ "version": version, "target": hex(&target), "func_name": f, "verifydata": input(verify), "calldata": input(args) });
    let (i, o) = (s.path("call.json"), s.path("call"));
    let _ = std::fs::remove_file(&o);
    std::fs::write(&i, doc.to_string()).unwrap();
    let r = cli(&["tx", "--tx-type", "call", "--input", &i, "--output", &o])?;
    if !r.status.success() {
        return Err(format!("{}: {}", doc, String::from_utf8_lossy(&r.stderr)));
    }
    let tx = Transaction::decode_bytes(std::fs::read(&o).unwrap()).map_err(|e| format!("{}: {:?}", doc, e))?;
    let want = Transaction { version, target: Address::from(target), func_name: f.into(), verifydata: enc_all(verify), calldata: enc_all(args) };
    if tx != want {
        return Err(format!("{} was crafted to {:?}", doc, tx));
    }
    c.state(&doc.to_string());
    Ok(())
}

fn crafted_spawn(c: &mut Ctx, s: &Scratch, version: u16, name: &str, ctor: &str, args: &[V]) -> Result<(), String> {
    c.step();
    let template = address(90);
    let doc = json!({ "version": version, "template": hex(&template), "name": name, "ctor_name": ctor, "calldata": input(args) });
    let (i, o) = (s.path("spawn.json"), s.path("spawn"));
    let _ = std::fs::remove_file(&o);
    std::fs::write(&i, doc.to_string()).unwrap();
    let r = cli(&["tx", "--tx-type", "spawn", "--input", &i, "--output", &o])?;
    if !r.status.success() {
        return Err(format!("{}: {}", doc, String::from_utf8_lossy(&r.stderr)));
    }
    let got = SpawnAccount::decode_bytes(std::fs::read(&o).unwrap()).map_err(|e| format!("{}: {:?}", doc, e))?;
    let want = SpawnAccount { version, account: Account { name: name.into(), template_addr: TemplateAddr::from(template) }, ctor_name: ctor.into(), calldata: enc_all(args) };
    if got != want {
        return Err(format!("{} was crafted to {:?}", doc, got));
    }
    c.state(&doc.to_string());
    Ok(())
}

/// What the functions of a module do.
const BODIES: &[(&str, bool)] = &[
    ("nop", true),
    ("i32.const 1 if nop nop else nop end", true),
    ("call $first nop", true),
    ("block br 0 end", true),
    ("loop end", false),
    ("block loop nop end end", false),
    ("call $self", false),
    ("i32.const 0 if call $next end", true),
    ("f64.const 1 drop", false),
    ("i32.const 0 call_indirect (type $t)", false),
];

/// The tool's verdict on a module, and the prices it tells.
fn validated(c: &mut Ctx, s: &Scratch, bodies: &[usize], kind: usize) -> Result<(), String> {
    c.step();
    let n = bodies.len();
    let mut text = String::from("(module (type $t (func)) (table 1 funcref) (func $first nop nop nop) ");
    for (i, b) in bodies.iter().enumerate() {
        let body = BODIES[*b].0.replace("$self", &format!("$f{}", i)).replace("$next", &format!("$f{}", (i + 1) % n));
        text += &format!("(func $f{} {}) ", i, body);
    }
    text += ")";
    // Is there a way from a function back to itself?
    let calls = |i: usize| BODIES[bodies[i]].0.contains("$next");
    let cycle = (0..n).all(calls);
    let want = !cycle && bodies.iter().all(|b| BODIES[*b].1);
    let wasm = wat::parse_str(&text).map_err(|e| e.to_string())?;
    let file = s.path(["m.wat", "m.wast", "m.wasm", "m.txt"][kind]);
    if kind == 2 {
        std::fs::write(&file, &wasm).unwrap();
    } else {
        std::fs::write(&file, &text).unwrap();
    }
    let r = cli(&["validate", "--input", &file])?;
    let _ = std::fs::remove_file(&file);
    let out = String::from_utf8_lossy(&r.stdout).to_string();
    if kind == 3 {
        return if r.status.success() { Err(format!("a file of an unknown kind was taken: {}", out)) } else { Ok(()) };
    }
    if r.status.code() == Some(101) || r.status.code().is_none() {
        return Err(format!("{}: the tool crashed: {}", text, String::from_utf8_lossy(&r.stderr)));
    }
    let said = out.contains("contains a valid smWasm module");
    if said != want {
        return Err(format!("{} should {}be valid: {}", text, if want { "" } else { "not " }, out));
    }
    if want {
        let p = svm_program::Program::new(&wasm, false).map_err(|e| format!("{:?}", e))?;
        let prices = ProgramPricing::new(std::rc::Rc::new(ExampleResolver::default())).visit(&p).map_err(|e| format!("{:?}", e))?;
        for i in 0..=n {
            let line = format!("#{} price: {}", i, prices.get(svm_program::FuncIndex(i as u32)));
            if !out.lines().any(|l| l.ends_with(&line)) {
                return Err(format!("{}: no line {:?} in {}", text, line, out));
            }
        }
    }
    c.state(&(bodies, kind));
    Ok(())
}

pub fn v22(c: &mut Ctx) {
    let s = &Scratch::new();
    for len in 1..=c.pick(2usize, 3) {
        sequences(BODIES.len(), len, &mut |v| {
            for kind in 0..4 {
                c.case(|| format!("validate: {:?} as {}", v, kind), |c| validated(c, s, v, kind));
            }
        });
    }
    for name in names() {
        c.case(|| format!("template: {}", name), |c| crafted(c, &name, s));
    }
    // Metadata of any number of variables, with arrays of any length at any place.
    let lens = [None, Some(1u32), Some(2), Some(5)];
    for n in 0..=3usize {
        product(&vec![lens.len(); n], &mut |v| {
            // Which of three functions are constructors, which are fundable; how large the variables are.
            let mut kinds: Vec<(usize, usize, usize)> = vec![];
            for ctors in 0..8 {
                if n < 2 {
                    kinds.extend((0..8).map(|f| (ctors, f, 0)));
                } else {
                    kinds.push((ctors, 5, 0));
                }
            }
            kinds.extend([(2, 1, 1), (4, 3, 2), (1, 0, 3)]);
            for (ctors, fundable, large) in kinds {
                c.case(|| format!("metadata: {:?}, constructors {:03b}, fundable {:03b}, sizes {}", v, ctors, fundable, large), |c| {
                    c.step();
                    let (mut schema, mut sizes, mut offset) = (vec![], vec![], 0);
                    for (k, l) in v.iter().enumerate() {
                        let size = [[8u32, 1, 20], [65_535, 255, 32_768], [256, 1 << 24, 65_536], [65_536, 1, 1]][large][k];
                        let l = lens[*l];
                        let mut var = json!({ "id": sizes.len(), "name": "x", "type": "u8", "offset": offset, "byte_count": size });
                        if let Some(l) = l {
                            var["length"] = json!(l);
                        }
                        schema.push(var);
                        sizes.extend(vec![size; l.unwrap_or(1) as usize]);
                        offset += size * l.unwrap_or(1);
                    }
                    let api: Vec<Json> = (0..3)
                        .map(|i| json!({ "name": format!("f{}", i), "wasm_name": format!("f{}", i), "doc": "", "is_ctor": ctors >> i & 1 == 1, "is_fundable": fundable >> i & 1 == 1, "signature": { "params": [], "returns": {} } }))
                        .collect();
                    let ctors: Vec<String> = (0..3).filter(|i| ctors >> i & 1 == 1).map(|i| format!("f{}", i)).collect();
                    let ctors: Vec<&str> = ctors.iter().map(|s| &s[..]).collect();
                    let r = craft(&[1, 2, 3], &json!({ "api": api, "schema": schema }).to_string(), &sizes, &ctors, s);
                    // What the format can't hold is refused.
                    if sizes.iter().all(|n| *n < 65_536) {
                        r?;
                    } else if !matches!(&r, Err(e) if e.starts_with("craft-deploy failed")) {
                        return Err(format!("a variable of 65536 bytes or more: {:?}", r));
                    }
                    c.state(&(v, ctors, fundable, large));
                    Ok(())
                });
            }
        });
    }
    // Calls and spawns with every type of parameter.
    let deep = c.thorough();
    for p in 0..PRIMS.len() {
        for (k, (f, args, _)) in calls(&format!("P{}", p), 2).into_iter().enumerate() {
            if !deep && f.starts_with("pair") && k % 4 != p % 4 {
                continue;
            }
            c.case(|| format!("call: {} {:?}", f, args), |c| {
                crafted_call(c, s, 0, &f, &[], &args)?;
                crafted_spawn(c, s, 0, "my account", &f, &args)
            });
        }
        for v in values(p) {
            c.case(|| format!("verifydata: {:?}", v), |c| crafted_call(c, s, 7, "f", &[v.clone(), V::Bool(true)], &[V::Bool(false)]));
        }
    }
    for version in [0u16, 1, 255, 256, 65535] {
        for name in ["", "a", "a name with spaces", "\u{e9}\u{4e16}"] {
            c.case(|| format!("version {}, name {:?}", version, name), |c| {
                crafted_call(c, s, version, name, &[], &[])?;
                crafted_spawn(c, s, version, name, name, &[])
            });
        }
    }
}
