//! V01 and V02: the versioned key-value store behind the global state.
//!
//! All the operation histories up to a depth are executed on the real
//! `GlobalState`/`AccountStorage` and compared with an abstract versioned map.

use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

use svm_state::{AccountStorage, GlobalState, TemplateStorage};
use svm_types::*;
use tokio::runtime::Runtime as Tokio;
use vh_core::{sequences, Ctx};

use crate::env::*;

/// What can be observed, by name.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Key {
    Bal(u8),
    Cnt(u8),
    Var(u8, u32),
}

type Map = BTreeMap<Key, u128>;

const SIZES: &[u32] = &[4, 8, 40];
const ACCOUNTS: &[u8] = &[0xA, 0xB, 0xC];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Bal(u8, u64),
    Cnt(u8, u64),
    Var(u8, u32, u64),
    /// Creates the account (balance, counter as given)
    Create(u8, u64),
    Checkpoint,
    Rollback,
    Commit,
    /// Rewinds to the last layer minus this many.
    Back(u64),
    /// Rewinds to layer 0.
    First,
    /// Rewinds to a layer that doesn't exist.
    Beyond(u64),
    /// Checkpoint, then commit.
    Seal,
}

#[derive(Clone)]
struct Model {
    layers: Vec<Map>, // [0] is the genesis layer (-1)
    saved: Map,
    dirty: Map,
}

impl Model {
    fn now(&self) -> Map {
        let mut m = self.layers.last().unwrap().clone();
        m.extend(self.saved.iter().map(|(k, v)| (*k, *v)));
        m.extend(self.dirty.iter().map(|(k, v)| (*k, *v)));
        m
    }
    /// Applies the operation; `false` if it must be refused.
    fn apply(&mut self, op: Op) -> bool {
        match op {
            Op::Bal(a, v) => {
                if !self.now().contains_key(&Key::Bal(a)) {
                    return false;
                }
                self.dirty.insert(Key::Bal(a), v as u128);
            }
            Op::Cnt(a, v) => {
                if !self.now().contains_key(&Key::Bal(a)) {
                    return false;
                }
                self.dirty.insert(Key::Cnt(a), v as u128);
            }
            Op::Var(a, i, v) => {
                if !self.now().contains_key(&Key::Bal(a)) {
                    return false;
                }
                self.dirty.insert(Key::Var(a, i), v as u128);
            }
            Op::Create(a, v) => {
                self.dirty.insert(Key::Bal(a), v as u128);
                self.dirty.insert(Key::Cnt(a), 1);
            }
            Op::Checkpoint => {
                let d = std::mem::take(&mut self.dirty);
                self.saved.extend(d);
            }
            Op::Rollback => self.dirty.clear(),
            Op::Commit => {
                if !self.dirty.is_empty() {
                    return false;
                }
                let m = self.now();
                self.saved.clear();
                self.layers.push(m);
            }
            Op::Seal => {
                return self.apply(Op::Checkpoint) && self.apply(Op::Commit);
            }
            Op::Back(_) | Op::First | Op::Beyond(_) => {
                let to = self.target(op);
                if !self.dirty.is_empty() || to.saturating_add(2) > self.layers.len() as u64 {
                    return false;
                }
                self.layers.truncate(to as usize + 2);
                self.saved.clear();
            }
        }
        true
    }
    fn last(&self) -> u64 {
        self.layers.len() as u64 - 2
    }
    fn target(&self, op: Op) -> u64 {
        match op {
            Op::Back(n) => self.last().saturating_sub(n),
            Op::First => 0,
            Op::Beyond(n) => self.last().saturating_add(n),
            _ => unreachable!(),
        }
    }
}

pub struct Sut {
    pub t: Arc<Tokio>,
    pub gs: GlobalState,
}

fn var_bytes(i: u32, v: u64) -> Vec<u8> {
    let n = SIZES[i as usize] as usize;
    (0..n).map(|k| if k < 8 { (v >> (8 * k)) as u8 } else { (v as u8).wrapping_mul(k as u8) }).collect()
}

impl Sut {
    pub fn base(t: &Arc<Tokio>) -> Sut {
        let gs = t.block_on(GlobalState::in_memory(no_genesis()));
        Self::init(t, gs)
    }

    pub fn base_at(t: &Arc<Tokio>, uri: &str) -> Sut {
        let gs = t.block_on(GlobalState::new(uri, no_genesis()));
        Self::init(t, gs)
    }

    /// Layer 0 holds the accounts A and B.
    fn init(t: &Arc<Tokio>, mut gs: GlobalState) -> Sut {
        let gs = t.block_on(async {
            let ta = TemplateAddr::repeat(0x80);
            put_template(&gs, &ta, SIZES).await;
            put_account(&gs, &addr(0xA), &ta, 10, 1).await;
            put_account(&gs, &addr(0xB), &ta, 20, 1).await;
            gs.checkpoint().await.unwrap();
            gs.commit().await.unwrap();
            gs
        });
        Sut { t: t.clone(), gs }
    }

    fn apply(&mut self, op: Op, target: u64) -> bool {
        let t = self.t.clone();
        let gs = &mut self.gs;
        t.block_on(async {
            match op {
                Op::Bal(a, v) => match AccountStorage::load(gs.clone(), &addr(a)).await {
                    Ok(mut s) => s.set_balance(v).await.is_ok(),
                    Err(_) => false,
                },
                Op::Cnt(a, v) => match AccountStorage::load(gs.clone(), &addr(a)).await {
                    Ok(mut s) => s.set_counter(v as u128).await.is_ok(),
                    Err(_) => false,
                },
                Op::Var(a, i, v) => match AccountStorage::load(gs.clone(), &addr(a)).await {
                    Ok(mut s) => s.set_var_bytes(i, &var_bytes(i, v)).await.is_ok(),
                    Err(_) => false,
                },
                Op::Create(a, v) => {
                    put_account(gs, &addr(a), &TemplateAddr::repeat(0x80), v, 1).await;
                    true
                }
                Op::Checkpoint => gs.checkpoint().await.is_ok(),
                Op::Rollback => gs.rollback().await.is_ok(),
                Op::Commit => gs.commit().await.is_ok(),
                Op::Seal => gs.checkpoint().await.is_ok() && gs.commit().await.is_ok(),
                Op::Back(_) | Op::First | Op::Beyond(_) => gs.rewind(Layer(target)).await.is_ok(),
            }
        })
    }

    /// Everything that can be read at the given layer (`None`: now).
    fn read(&self, layer: Option<u64>) -> Result<Map, String> {
        let mut gs = self.gs.clone();
        *gs.layer_query_parameter_mut() = layer.map(Layer);
        let mut m = Map::new();
        self.t.block_on(async {
            for a in ACCOUNTS {
                let s = match AccountStorage::load(gs.clone(), &addr(*a)).await {
                    Ok(s) => s,
                    Err(_) => continue,
                };
                let b = s.balance().await.map_err(|e| format!("balance of {:x}: {:?}", a, e))?;
                let c = s.counter().await.map_err(|e| format!("counter of {:x}: {:?}", a, e))?;
                m.insert(Key::Bal(*a), b as u128);
                m.insert(Key::Cnt(*a), c);
                for i in 0..SIZES.len() as u32 {
                    let v = s.get_var_vec(i).await.map_err(|e| format!("variable {} of {:x}: {:?}", i, a, e))?;
                    let mut x = 0u64;
                    for k in (0..v.len().min(8)).rev() {
                        x = x << 8 | v[k] as u64;
                    }
                    if v != var_bytes(i, x) {
                        return Err(format!("variable {} of {:x} is garbled: {:?}", i, a, v));
                    }
                    if x != 0 {
                        m.insert(Key::Var(*a, i), x as u128);
                    }
                }
            }
            Ok(m)
        })
    }
}

fn visible(m: &Map) -> Map {
    m.iter()
        .filter(|(k, v)| !matches!(k, Key::Var(..)) || **v != 0)
        .map(|(k, v)| (*k, *v))
        .collect()
}

fn base_model() -> Model {
    let mut m = Map::new();
    for (a, b) in [(0xA, 10u128), (0xB, 20)] {
        m.insert(Key::Bal(a), b);
        m.insert(Key::Cnt(a), 1);
    }
    Model { layers: vec![Map::new(), m], saved: Map::new(), dirty: Map::new() }
}

/// Runs the history and checks everything observable after its last operation.
fn run_v01(c: &mut Ctx, t: &Arc<Tokio>, ops: &[Op], always: bool) -> Result<(), String> {
    let mut sut = Sut::base(t);
    let mut model = base_model();
    let mut prints: Vec<State> = vec![t.block_on(sut.gs.current_state()).unwrap()];
    for (i, op) in ops.iter().enumerate() {
        let target = match op {
            Op::Back(_) | Op::First | Op::Beyond(_) => model.target(*op),
            _ => 0,
        };
        let got = sut.apply(*op, target);
        let want = model.apply(*op);
        c.step();
        if got != want {
            return Err(format!(
                "operation {} ({:?}) was {}, it should have been {}",
                i,
                op,
                if got { "accepted" } else { "refused" },
                if want { "accepted" } else { "refused" }
            ));
        }
        // the fingerprint of every layer still there
        prints.truncate(model.layers.len() - 1);
        if prints.len() < model.layers.len() - 1 {
            prints.push(t.block_on(sut.gs.current_state()).unwrap());
        }
        if always || i + 1 == ops.len() {
            check_all(&mut sut, &model, &prints).map_err(|e| format!("after operation {} ({:?}): {}", i, op, e))?;
        }
    }
    c.state(&(&model.layers, &model.saved, &model.dirty));
    Ok(())
}

fn check_all(sut: &mut Sut, model: &Model, prints: &[State]) -> Result<(), String> {
    let now = sut.read(None)?;
    if now != visible(&model.now()) {
        return Err(format!("reads {:?}, written {:?}", now, visible(&model.now())));
    }
    for (i, l) in model.layers.iter().enumerate() {
        let id = (i as i64 - 1) as u64; // the genesis layer is -1
        let got = sut.read(Some(id))?;
        if got != visible(l) {
            return Err(format!("at layer {}: reads {:?}, committed {:?}", id as i64, got, visible(l)));
        }
    }
    // A layer that isn't there can't be read.
    let got = sut.read(Some(model.last() + 1))?;
    if !got.is_empty() {
        return Err(format!("reads {:?} at layer {}, which doesn't exist", got, model.last() + 1));
    }
    let t = sut.t.clone();
    let (layer, state) = t
        .block_on(sut.gs.current_layer())
        .map_err(|e| format!("current layer: {:?}", e))?;
    if layer.0 != model.last() {
        return Err(format!("the current layer is {}, not {}", layer.0, model.last()));
    }
    if Some(&state) != prints.last() {
        return Err("the fingerprint of the current layer isn't the one reported when it was committed".into());
    }
    let dirty = sut.gs.has_uncommitted_changes();
    let want = !(model.dirty.is_empty() && model.saved.is_empty());
    if dirty != want {
        return Err(format!("uncommitted changes: {}, should be {}", dirty, want));
    }
    Ok(())
}

fn show(ops: &[Op]) -> String {
    ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(" ")
}

pub fn v01(c: &mut Ctx) {
    // Every history over the elementary operations.
    let fine = [
        Op::Bal(0xA, 1),
        Op::Bal(0xA, 2),
        Op::Var(0xA, 1, 7),
        Op::Create(0xC, 5),
        Op::Checkpoint,
        Op::Rollback,
        Op::Commit,
        Op::Back(0),
        Op::Back(1),
    ];
    let depth = c.pick(5, 6);
    for d in 1..=depth {
        sequences(fine.len(), d, &mut |v| {
            // At the last level, leave out immediate repetitions.
            if d == depth && v.windows(2).any(|w| w[0] == w[1]) {
                return;
            }
            let ops: Vec<Op> = v.iter().map(|i| fine[*i]).collect();
            c.case(|| show(&ops), |c| run_v01(c, &tokio(), &ops, false));
        });
    }
    // Longer histories over whole layers.
    let coarse = [
        Op::Bal(0xA, 1),
        Op::Bal(0xB, 3),
        Op::Var(0xB, 2, 9),
        Op::Seal,
        Op::Back(1),
        Op::First,
    ];
    let depth = c.pick(6, 8);
    for d in 6..=depth {
        sequences(coarse.len(), d, &mut |v| {
            let ops: Vec<Op> = v.iter().map(|i| coarse[*i]).collect();
            // Only histories that create at least two layers, or one and rewind.
            if ops.iter().filter(|o| **o == Op::Seal).count() < 2 {
                return;
            }
            c.case(|| show(&ops), |c| run_v01(c, &tokio(), &ops, false));
        });
    }
    // Refused operations and the remaining setters, everywhere in short histories.
    let odd = [
        Op::Bal(0xC, 1),
        Op::Cnt(0xA, 9),
        Op::Var(0xA, 0, 3),
        Op::Beyond(1),
        Op::Beyond(2),
        Op::Beyond(u64::MAX / 2),
        Op::Beyond(u64::MAX),
        Op::Seal,
        Op::Back(1),
        Op::Rollback,
    ];
    for d in 1..=c.pick(3, 4) {
        sequences(odd.len(), d, &mut |v| {
            let ops: Vec<Op> = v.iter().map(|i| odd[*i]).collect();
            c.case(|| show(&ops), |c| run_v01(c, &tokio(), &ops, true));
        });
    }
    scales(c);
}

// ---------------------------------------------------------------------------
// Large layers, long histories, large values

/// The i-th of many accounts.
fn many(i: usize) -> Address {
    let mut b = [0x33u8; 20];
    b[7] = (i >> 8) as u8;
    b[19] = i as u8;
    Address::new(b)
}

async fn put_many(gs: &GlobalState, i: usize, name: usize, balance: u64) {
    AccountStorage::create(gs.clone(), &many(i), "n".repeat(name), TemplateAddr::repeat(0x80), balance, i as u128).await.unwrap();
}

/// Compares all of the accounts with their names' lengths and balances expected at a layer.
async fn many_are(gs: &GlobalState, layer: Option<u64>, n: usize, want: &dyn Fn(usize) -> Option<(usize, u64)>) -> Result<(), String> {
    let mut gs = gs.clone();
    *gs.layer_query_parameter_mut() = layer.map(Layer);
    for i in 0..n {
        let got = match AccountStorage::load(gs.clone(), &many(i)).await {
            Ok(s) => match (s.name().await, s.balance().await, s.counter().await) {
                (Ok(name), Ok(b), Ok(c)) if c == i as u128 && name.bytes().all(|c| c == b'n') => Some((name.len(), b)),
                x => return Err(format!("account {} at {:?}: {:?}", i, layer, x)),
            },
            Err(_) => None,
        };
        if got != want(i) {
            return Err(format!("account {} at layer {:?} is {:?}, not {:?} (length of the name, balance)", i, layer, got, want(i)));
        }
    }
    Ok(())
}

/// `n` accounts in one layer, half of them changed in the next one; then rewound.
fn wide(c: &mut Ctx, n: usize, saves: usize) -> Result<(), String> {
    let t = tokio();
    let mut sut = Sut::base(&t);
    let gs = &mut sut.gs;
    c.steps(n as u64);
    t.block_on(async {
        let e = |e| format!("{:?}", e);
        for i in 0..n {
            put_many(gs, i, 3, i as u64).await;
            if saves > 0 && i % saves == 0 {
                gs.checkpoint().await.map_err(e)?;
            }
        }
        gs.checkpoint().await.map_err(e)?;
        let first = |i: usize| Some((3, i as u64));
        // Discarding changes, few or many, leaves what is saved.
        for some in [n, 1] {
            for i in 0..some {
                put_many(gs, i, 5, 7).await;
            }
            if some == n {
                many_are(gs, None, n, &|_| Some((5, 7))).await?;
            }
            gs.rollback().await.map_err(e)?;
            many_are(gs, None, n, &first).await?;
        }
        gs.commit().await.map_err(e)?;
        for i in (0..n).step_by(2) {
            let mut s = AccountStorage::load(gs.clone(), &many(i)).await.map_err(|e| format!("{:?}", e))?;
            s.set_balance(1_000_000 + i as u64).await.map_err(|e| format!("{:?}", e))?;
        }
        gs.checkpoint().await.map_err(e)?;
        gs.commit().await.map_err(e)?;
        for i in 0..n {
            put_many(gs, i, 5, 7).await;
        }
        gs.rollback().await.map_err(e)?;
        let second = |i: usize| Some((3, if i % 2 == 0 { 1_000_000 + i as u64 } else { i as u64 }));
        many_are(gs, None, n, &second).await?;
        many_are(gs, Some(2), n, &second).await?;
        many_are(gs, Some(1), n, &first).await?;
        many_are(gs, Some(0), n, &|_| None).await?;
        gs.rewind(Layer(1)).await.map_err(e)?;
        many_are(gs, None, n, &first).await?;
        gs.rewind(Layer(0)).await.map_err(e)?;
        many_are(gs, None, n, &|_| None).await
    })
}

/// `n` layers, in each of which one balance changes, and others now and then.
fn long(c: &mut Ctx, n: usize) -> Result<(), String> {
    let t = tokio();
    let mut sut = Sut::base(&t);
    let gs = &mut sut.gs;
    c.steps(2 * n as u64);
    t.block_on(async {
        let e = |e| format!("{:?}", e);
        // In layer `l` the account 0 has the balance `l`, and the account `k` that of the last multiple of 7^k.
        let at = |l: usize| move |i: usize| {
            let b = l / 7usize.pow(i as u32) * 7usize.pow(i as u32);
            if b == 0 {
                None
            } else {
                Some((2, b as u64))
            }
        };
        for l in 1..=n {
            for i in 0..3 {
                if l % 7usize.pow(i) == 0 {
                    put_many(gs, i as usize, 2, l as u64).await;
                }
            }
            gs.checkpoint().await.map_err(e)?;
            let (layer, _) = gs.commit().await.map_err(e)?;
            if layer.0 != l as u64 {
                return Err(format!("layer {} was committed as {}", l, layer.0));
            }
        }
        for l in 0..=n {
            many_are(gs, Some(l as u64), 3, &at(l)).await?;
        }
        let mut to = n;
        while to > 0 {
            to = if to > 130 && to < 140 || to > 255 && to < 260 { to - 1 } else { to - (to / 9).max(1) };
            gs.rewind(Layer(to as u64)).await.map_err(e)?;
            let (layer, _) = gs.current_layer().await.map_err(e)?;
            if layer.0 != to as u64 {
                return Err(format!("rewound to {} instead of {}", layer.0, to));
            }
            many_are(gs, None, 3, &at(to)).await?;
            if to > 1 {
                many_are(gs, Some(to as u64 - 1), 3, &at(to - 1)).await?;
            }
        }
        Ok(())
    })
}

async fn put_code(gs: &GlobalState, size: usize) {
    let code = CodeSection::new(CodeKind::Wasm, (0..size).map(|i| (i % 253) as u8).collect(), size as u64, GasMode::Fixed, 0);
    let t = Template::new(code, DataSection::with_capacity(0), CtorsSection::new(vec![]));
    TemplateStorage::create(gs.clone(), &TemplateAddr::repeat(0x81), t.sections().clone(), Sections::with_capacity(0)).await.unwrap();
}

async fn code_is(gs: &GlobalState, layer: Option<u64>, size: usize) -> Result<(), String> {
    let mut gs = gs.clone();
    *gs.layer_query_parameter_mut() = layer.map(Layer);
    let s = TemplateStorage::load(gs, &TemplateAddr::repeat(0x81)).map_err(|e| format!("{:?}", e))?;
    let s = s.sections().await.map_err(|e| format!("{:?}", e))?;
    let code = s.get(SectionKind::Code).as_code();
    if code.code().len() != size || code.flags() != size as u64 || code.code().iter().enumerate().any(|(i, b)| *b != (i % 253) as u8) {
        return Err(format!("a value of {} bytes comes back with {} or changed (at {:?})", size, code.code().len(), layer));
    }
    Ok(())
}

/// Values of the given sizes, overwritten by one another.
fn large(c: &mut Ctx, a: usize, b: usize) -> Result<(), String> {
    let t = tokio();
    let mut sut = Sut::base(&t);
    let gs = &mut sut.gs;
    c.steps(4);
    t.block_on(async {
        let e = |e| format!("{:?}", e);
        put_code(gs, a).await;
        code_is(gs, None, a).await?;
        gs.checkpoint().await.map_err(e)?;
        code_is(gs, None, a).await?;
        gs.commit().await.map_err(e)?;
        code_is(gs, None, a).await?;
        put_code(gs, b).await;
        gs.checkpoint().await.map_err(e)?;
        gs.commit().await.map_err(e)?;
        code_is(gs, None, b).await?;
        code_is(gs, Some(1), a).await?;
        gs.rewind(Layer(1)).await.map_err(e)?;
        code_is(gs, None, a).await
    })
}

fn scales(c: &mut Ctx) {
    let mut ns = vec![3usize, 8, 16, 17, 31, 32, 33, 50, 51, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 512, 513, 1000];
    if c.thorough() {
        ns.extend_from_slice(&[333, 999, 1001, 1024, 1025, 2000, 2049, 5000, 10_923, 16_384, 17_000]);
    }
    for n in &ns {
        for saves in [0usize, 1, 10] {
            if saves == 1 && *n > 600 {
                continue;
            }
            c.case(|| format!("{} accounts in a layer, saved every {}", n, saves), |c| wide(c, *n, saves));
        }
    }
    for n in [20usize, 100, 140, 300, c.pick(520, 2100)] {
        c.case(|| format!("{} layers", n), |c| long(c, n));
    }
    let sizes = [0usize, 1, 31, 32, 100, 255, 256, 1000, 4000, 4096, 5000, 65_535, 65_536, 70_000, 1 << 20];
    for a in sizes {
        for b in sizes {
            c.case(|| format!("values of {} and {} bytes", a, b), |c| large(c, a, b));
        }
    }
}

/// The fingerprint of a layer with many accounts doesn't depend on how they came into it.
fn wide_prints(c: &mut Ctx, n: usize) -> Result<(), String> {
    let mut prints: Vec<(String, State)> = vec![];
    for how in 0..6usize {
        c.steps(n as u64);
        let t = tokio();
        let mut sut = Sut::base(&t);
        let gs = &mut sut.gs;
        let p: Result<State, String> = t.block_on(async {
            let e = |e| format!("{:?}", e);
            for k in 0..n {
                // All at once, backwards, saved in parts, one layer for each ten, written twice, with other values first.
                let i = if how == 1 { n - 1 - k } else { k };
                if how == 4 || how == 5 {
                    put_many(gs, i, 4, 77).await;
                }
                if how == 5 {
                    gs.checkpoint().await.map_err(e)?;
                }
                put_many(gs, i, 3, i as u64).await;
                if how == 2 && k % 10 == 0 || how == 3 && k % 10 == 9 {
                    gs.checkpoint().await.map_err(e)?;
                }
                if how == 3 && k % 10 == 9 {
                    gs.commit().await.map_err(e)?;
                }
            }
            gs.checkpoint().await.map_err(e)?;
            Ok(gs.commit().await.map_err(e)?.1)
        });
        prints.push((format!("way {}", how), p?));
        // Another balance of the last one.
        if how == 0 {
            let p: Result<State, String> = t.block_on(async {
                let e = |e| format!("{:?}", e);
                put_many(gs, n - 1, 3, u64::MAX).await;
                gs.checkpoint().await.map_err(e)?;
                Ok(gs.commit().await.map_err(e)?.1)
            });
            if p? == prints[0].1 {
                return Err("the fingerprint doesn't depend on the last account".into());
            }
        }
    }
    for (how, p) in &prints {
        if *p != prints[0].1 {
            return Err(format!("{} gives another fingerprint", how));
        }
    }
    c.state(&n);
    Ok(())
}

/// Values of `len` bytes that differ in one place: everywhere near a power of two, and at both ends.
fn long_prints(c: &mut Ctx, len: usize) -> Result<(), String> {
    let t = tokio();
    let mut sut = Sut::base(&t);
    let gs = &mut sut.gs;
    let addr = TemplateAddr::repeat(0x5E);
    let mut places: Vec<usize> = (0..=20).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1, len.wrapping_sub(1 << b)]).filter(|p| *p < len).collect();
    places.sort();
    places.dedup();
    t.block_on(async {
        let e = |e| format!("{:?}", e);
        let base = gs.commit().await.map_err(e)?.0;
        let mut seen: HashMap<[u8; 32], (usize, Option<usize>)> = HashMap::new();
        let mut values: Vec<(usize, Option<usize>)> = places.iter().map(|p| (len, Some(*p))).collect();
        values.extend([(len, None), (len - 1, None), (len + 1, None)]);
        for over in [false, true] {
            for (l, place) in &values {
                c.step();
                let mut code = vec![0x40; *l];
                if let Some(p) = place {
                    code[*p] ^= 1;
                }
                if over {
                    // In place of another one that is committed.
                    put_code_at(gs, &addr, vec![0x33; len]).await;
                    gs.checkpoint().await.map_err(e)?;
                    gs.commit().await.map_err(e)?;
                }
                put_code_at(gs, &addr, code).await;
                gs.checkpoint().await.map_err(e)?;
                let print = gs.commit().await.map_err(e)?.1 .0;
                gs.rewind(base).await.map_err(e)?;
                let v = (*l, *place);
                match seen.insert(print, v) {
                    None if over => return Err(format!("a value of {} bytes, changed at {:?}, has another fingerprint when it replaces one", l, place)),
                    Some(w) if w != v => return Err(format!("values (of a length, changed at a place) {:?} and {:?} have the same fingerprint", v, w)),
                    _ => {}
                }
            }
        }
        c.state(&len);
        Ok(())
    })
}

async fn put_code_at(gs: &GlobalState, addr: &TemplateAddr, code: Vec<u8>) {
    let mut s = Sections::with_capacity(1);
    s.insert(Section::Code(CodeSection::new(CodeKind::Wasm, code, 0, GasMode::Fixed, 0)));
    TemplateStorage::create(gs.clone(), addr, s, Sections::with_capacity(0)).await.unwrap();
}

// ---------------------------------------------------------------------------
// V02

/// Builds the given contents in one layer on top of the base, and returns the
/// fingerprint of that layer.
fn reference(contents: &Map) -> State {
    let t = tokio();
    let mut sut = Sut::base(&t);
    let mut keys: Vec<(&Key, &u128)> = contents.iter().collect();
    // Creations first.
    keys.sort_by_key(|(k, _)| (matches!(k, Key::Var(..)), **k));
    for (k, v) in keys {
        match k {
            Key::Bal(0xC) => {
                sut.apply(Op::Create(0xC, *v as u64), 0);
            }
            Key::Cnt(0xC) => {
                if *v != 1 {
                    sut.apply(Op::Cnt(0xC, *v as u64), 0);
                }
            }
            Key::Bal(a) => {
                sut.apply(Op::Bal(*a, *v as u64), 0);
            }
            Key::Cnt(a) => {
                sut.apply(Op::Cnt(*a, *v as u64), 0);
            }
            Key::Var(a, i) => {
                sut.apply(Op::Var(*a, *i, *v as u64), 0);
            }
        }
    }
    sut.apply(Op::Seal, 0);
    t.block_on(sut.gs.current_state()).unwrap()
}

pub struct Refs {
    by_contents: HashMap<Map, State>,
    by_print: HashMap<[u8; 32], Map>,
}

impl Refs {
    fn get(&mut self, m: &Map) -> Result<State, String> {
        if let Some(s) = self.by_contents.get(m) {
            return Ok(*s);
        }
        let s = reference(m);
        if let Some(other) = self.by_print.get(&s.0) {
            return Err(format!("{:?} and {:?} have the same fingerprint", other, m));
        }
        self.by_print.insert(s.0, m.clone());
        self.by_contents.insert(m.clone(), s);
        Ok(s)
    }
}

fn run_v02(c: &mut Ctx, refs: &mut Refs, ops: &[Op], reopen: Option<&str>) -> Result<(), String> {
    let mut t = tokio();
    let mut sut = match reopen {
        None => Sut::base(&t),
        Some(uri) => Sut::base_at(&t, uri),
    };
    let mut model = base_model();
    let mut layers = model.layers.len();
    for op in ops {
        let target = match op {
            Op::Back(_) | Op::First | Op::Beyond(_) => model.target(*op),
            _ => 0,
        };
        sut.apply(*op, target);
        model.apply(*op);
        c.step();
        let committed = model.layers.len() != layers;
        layers = model.layers.len();
        if let (Some(uri), true) = (reopen, committed) {
            let ta = model.saved.is_empty() && model.dirty.is_empty();
            if ta {
                drop(sut);
                t = tokio();
                let gs = t.block_on(GlobalState::new(uri, no_genesis()));
                sut = Sut { t: t.clone(), gs };
            }
        }
        if committed {
            let got = t.block_on(sut.gs.current_state()).map_err(|e| format!("{:?}", e))?;
            let contents = model.layers.last().unwrap();
            c.state(contents);
            let want = refs.get(contents)?;
            if got != want {
                return Err(format!(
                    "after {:?} the layer holds {:?} and has the fingerprint {}, but the same contents written at once have {}",
                    op,
                    visible(contents),
                    vh_core::hex(&got.0),
                    vh_core::hex(&want.0)
                ));
            }
        }
    }
    Ok(())
}

pub fn v02(c: &mut Ctx) {
    let mut refs = Refs { by_contents: HashMap::new(), by_print: HashMap::new() };
    // Different contents, different fingerprints.
    c.case(
        || "pairwise different contents".into(),
        |c| {
            let mut refs = Refs { by_contents: HashMap::new(), by_print: HashMap::new() };
            let base = base_model().layers[1].clone();
            let mut err = Ok(());
            vh_core::product(&[4, 3, 2, 3, 2, 3], &mut |v| {
                let mut m = base.clone();
                m.insert(Key::Bal(0xA), [10, 1, 2, 20][v[0]]);
                m.insert(Key::Bal(0xB), [20, 1, 10][v[1]]);
                m.insert(Key::Cnt(0xA), [1, 2][v[2]]);
                if v[3] > 0 {
                    m.insert(Key::Var(0xA, 1), v[3] as u128);
                }
                if v[4] > 0 {
                    m.insert(Key::Bal(0xC), 1);
                    m.insert(Key::Cnt(0xC), 1);
                }
                if v[5] > 0 {
                    m.insert(Key::Var(0xB, 2), v[5] as u128 * 3);
                }
                c.step();
                c.state(&m);
                if let Err(e) = refs.get(&m) {
                    err = Err(e);
                }
            });
            err?;
            // They differ in all their bytes, not just in some.
            let prints: Vec<&[u8; 32]> = refs.by_print.keys().collect();
            match (0..32).find(|i| prints.iter().all(|p| p[*i] == prints[0][*i])) {
                Some(i) => Err(format!("byte {} of the fingerprint doesn't depend on the contents", i)),
                None => Ok(()),
            }
        },
    );
    for n in [10usize, 33, 65, 100, 129, 257, 501, c.pick(600, 2050)] {
        c.case(|| format!("{} accounts, written in different ways", n), |c| wide_prints(c, n));
    }
    for len in [1usize, 2, 31, 64, 100, 255, 256, 1000, 1024, 4096, 5000, 65_536, 70_000, c.pick(300_000, 1_100_000)] {
        c.case(|| format!("values of {} bytes", len), |c| long_prints(c, len));
    }
    let ops = [
        Op::Bal(0xA, 1),
        Op::Bal(0xA, 2),
        Op::Bal(0xB, 1),
        Op::Var(0xA, 1, 7),
        Op::Create(0xC, 5),
        Op::Checkpoint,
        Op::Rollback,
        Op::Seal,
        Op::Back(1),
    ];
    let depth = c.pick(5, 6);
    for d in 1..=depth {
        sequences(ops.len(), d, &mut |v| {
            if d >= 5 && v.windows(2).any(|w| w[0] == w[1]) {
                return;
            }
            let mut h: Vec<Op> = v.iter().map(|i| ops[*i]).collect();
            h.push(Op::Seal);
            c.case(|| show(&h), |c| run_v02(c, &mut refs, &h, None));
        });
    }
    // The same with the database closed and reopened after every commit.
    let few = [Op::Bal(0xA, 1), Op::Bal(0xA, 2), Op::Var(0xA, 1, 7), Op::Seal, Op::Back(1)];
    for d in 1..=c.pick(4, 5) {
        sequences(few.len(), d, &mut |v| {
            let mut h: Vec<Op> = v.iter().map(|i| few[*i]).collect();
            h.push(Op::Seal);
            c.case(
                || format!("reopening: {}", show(&h)),
                |c| {
                    let dir = c.scratch.join("v02");
                    let _ = std::fs::remove_dir_all(&dir);
                    std::fs::create_dir_all(&dir).unwrap();
                    let uri = format!("sqlite:{}/db?mode=rwc", dir.display());
                    let r = run_v02(c, &mut refs, &h, Some(&uri));
                    let _ = std::fs::remove_dir_all(&dir);
                    r
                },
            );
        });
    }
}
