//! V28: several threads.
//!
//! Threads of the harness run one at a time, and a controller decides at every
//! point which one goes on. Points are the calls of a script and, in the fine
//! mode, every lock that more than one of the threads takes: the locks of the C
//! library are replaced below, so the code in /repo isn't changed for it. All
//! the schedules up to a number of preemptions are run.

use std::cell::Cell;
use std::collections::BTreeSet;
use std::ffi::c_void;
use std::fmt::Debug;
use std::os::raw::{c_char, c_int};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

use svm_codec::Codec;
use svm_runtime_ffi::*;
use svm_state::{GlobalState, TemplateStorage};
use svm_types::*;
use tokio::runtime::Runtime as Tokio;
use vh_core::{no_panic, sequences, Ctx};

use crate::chain::{encode, envelope, fixed, spawned, Fixed, St};
use crate::env::*;

// ---------------------------------------------------------------------------
// The locks

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}

const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;
const EBUSY: c_int = 16;

type LockFn = unsafe extern "C" fn(*mut c_void) -> c_int;

fn real(slot: &AtomicUsize, name: &str) -> LockFn {
    let mut p = slot.load(SeqCst);
    if p == 0 {
        p = unsafe { dlsym(RTLD_NEXT, name.as_ptr() as *const c_char) } as usize;
        if p == 0 {
            std::process::abort();
        }
        slot.store(p, SeqCst);
    }
    unsafe { std::mem::transmute::<usize, LockFn>(p) }
}

macro_rules! lock_fns {
    ($($lock:ident, $try:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $lock(m: *mut c_void) -> c_int {
            static REAL: AtomicUsize = AtomicUsize::new(0);
            static TRY: AtomicUsize = AtomicUsize::new(0);
            let real_lock = real(&REAL, concat!(stringify!($lock), "\0"));
            if !watched(m, true) {
                return real_lock(m);
            }
            let try_lock = real(&TRY, concat!(stringify!($try), "\0"));
            wait(READY);
            loop {
                let r = try_lock(m);
                if r != EBUSY {
                    return r;
                }
                wait(BLOCKED);
            }
        }
    )*};
}

lock_fns! {
    pthread_mutex_lock, pthread_mutex_trylock;
    pthread_rwlock_rdlock, pthread_rwlock_tryrdlock;
    pthread_rwlock_wrlock, pthread_rwlock_trywrlock;
}

macro_rules! unlock_fns {
    ($($unlock:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $unlock(m: *mut c_void) -> c_int {
            static REAL: AtomicUsize = AtomicUsize::new(0);
            let r = real(&REAL, concat!(stringify!($unlock), "\0"))(m);
            if watched(m, false) {
                for s in STATES.iter() {
                    let _ = s.compare_exchange(BLOCKED, READY, SeqCst, SeqCst);
                }
                wait(READY);
            }
            r
        }
    )*};
}

unlock_fns! { pthread_mutex_unlock pthread_rwlock_unlock }

macro_rules! destroy_fns {
    ($($destroy:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $destroy(m: *mut c_void) -> c_int {
            static REAL: AtomicUsize = AtomicUsize::new(0);
            forget(m);
            real(&REAL, concat!(stringify!($destroy), "\0"))(m)
        }
    )*};
}

destroy_fns! { pthread_mutex_destroy pthread_rwlock_destroy }

/// Locks seen in the fine mode: address, and the threads that took it.
const SEEN: usize = 1 << 14;
static SEEN_AT: [AtomicUsize; SEEN] = {
    const Z: AtomicUsize = AtomicUsize::new(0);
    [Z; SEEN]
};
static SEEN_BY: [AtomicU32; SEEN] = {
    const Z: AtomicU32 = AtomicU32::new(0);
    [Z; SEEN]
};
static USED: AtomicBool = AtomicBool::new(false);
/// While the threads start, and show which locks they have in common.
static TOUCH: AtomicBool = AtomicBool::new(false);

fn seen(m: *mut c_void) -> impl Iterator<Item = usize> {
    let start = (m as usize >> 3).wrapping_mul(0x9E37_79B9) % SEEN;
    (0..64).map(move |i| (start + i) % SEEN)
}

fn forget(m: *mut c_void) {
    if USED.load(SeqCst) {
        for i in seen(m) {
            if SEEN_AT[i].load(SeqCst) == m as usize {
                SEEN_BY[i].store(0, SeqCst);
            }
        }
    }
}

/// Whether this is a lock of several of the threads, and one of them is asking.
fn watched(m: *mut c_void, taking: bool) -> bool {
    let me = ME.try_with(|x| x.get()).unwrap_or(0);
    if me == 0 || !FINE.load(SeqCst) || std::thread::panicking() {
        return false;
    }
    USED.store(true, SeqCst);
    for i in seen(m) {
        let at = SEEN_AT[i].load(SeqCst);
        if at == m as usize {
            let by = if taking { SEEN_BY[i].fetch_or(1 << me, SeqCst) | 1 << me } else { SEEN_BY[i].load(SeqCst) };
            return by.count_ones() > 1 && !TOUCH.load(SeqCst);
        }
        if at == 0 && SEEN_AT[i].compare_exchange(0, m as usize, SeqCst, SeqCst).is_ok() {
            SEEN_BY[i].store(1 << me, SeqCst);
            return false;
        }
    }
    false
}

// ---------------------------------------------------------------------------
// The controller

const OFF: u32 = 0;
const READY: u32 = 1;
const RUNNING: u32 = 2;
const BLOCKED: u32 = 3;
const DONE: u32 = 4;

const MAX: usize = 4;
static STATES: [AtomicU32; MAX + 1] = {
    const Z: AtomicU32 = AtomicU32::new(OFF);
    [Z; MAX + 1]
};
static FINE: AtomicBool = AtomicBool::new(false);
static mut CONTROLLER: Option<std::thread::Thread> = None;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}

/// Lets the controller decide.
fn wait(state: u32) {
    let me = ME.with(|m| m.get());
    STATES[me].store(state, SeqCst);
    unsafe { CONTROLLER.as_ref().unwrap().unpark() };
    while STATES[me].load(SeqCst) != RUNNING {
        std::thread::park();
    }
}

#[derive(Clone, Debug)]
struct Decision {
    options: usize,
    chosen: usize,
    /// Whether the thread that ran could have gone on.
    could: bool,
}

impl Decision {
    fn cost(&self) -> usize {
        (self.could && self.chosen > 0) as usize
    }
}

/// Runs the threads; `pick` chooses among those that can go on, the one that ran
/// before being the first if it can.
fn control(bodies: Vec<(Box<dyn FnOnce() + Send>, Box<dyn FnOnce() + Send>)>, pick: &mut dyn FnMut(&[usize], bool) -> usize) -> Result<Vec<Decision>, String> {
    unsafe { CONTROLLER = Some(std::thread::current()) };
    let n = bodies.len();
    assert!(n <= MAX);
    let mut threads = vec![];
    TOUCH.store(true, SeqCst);
    for (i, (first, b)) in bodies.into_iter().enumerate() {
        let me = i + 1;
        STATES[me].store(RUNNING, SeqCst);
        threads.push(
            std::thread::Builder::new()
                .spawn(move || {
                    ME.with(|m| m.set(me));
                    first();
                    wait(READY);
                    b();
                    ME.with(|m| m.set(0));
                    STATES[me].store(DONE, SeqCst);
                    unsafe { CONTROLLER.as_ref().unwrap().unpark() };
                })
                .unwrap(),
        );
        while STATES[me].load(SeqCst) == RUNNING {
            std::thread::park();
        }
    }
    TOUCH.store(false, SeqCst);
    let state = |i: usize| STATES[i].load(SeqCst);
    let mut decisions = vec![];
    let mut cur = 0;
    let mut idle = Instant::now();
    let stuck = loop {
        let mut ready: Vec<usize> = (1..=n).filter(|i| state(*i) == READY).collect();
        if ready.is_empty() {
            if (1..=n).all(|i| state(i) == DONE) {
                break false;
            }
            // Who waits for a lock of another thread (or is away) gets another try.
            if (1..=n).any(|i| state(i) == RUNNING) {
                idle = Instant::now();
            }
            if idle.elapsed() > Duration::from_secs(30) {
                break true;
            }
            std::thread::park_timeout(Duration::from_millis(2));
            for s in STATES.iter() {
                let _ = s.compare_exchange(BLOCKED, READY, SeqCst, SeqCst);
            }
            continue;
        }
        let could = ready.contains(&cur);
        ready.sort_by_key(|i| (*i != cur, *i));
        let k = if ready.len() == 1 {
            0
        } else {
            let k = pick(&ready, could).min(ready.len() - 1);
            decisions.push(Decision { options: ready.len(), chosen: k, could });
            k
        };
        cur = ready[k];
        STATES[cur].store(RUNNING, SeqCst);
        threads[cur - 1].thread().unpark();
        let since = Instant::now();
        while state(cur) == RUNNING {
            if since.elapsed() > Duration::from_secs(200) {
                return Err("a call doesn't come back".into());
            }
            // Someone who waits for what another one will do: the others go on.
            if since.elapsed() > Duration::from_secs(5) && (1..=n).any(|i| state(i) == READY) {
                break;
            }
            std::thread::park_timeout(Duration::from_millis(100));
        }
        if state(cur) != BLOCKED {
            idle = Instant::now();
        }
    };
    if stuck {
        return Err("the threads wait for each other".into());
    }
    for t in threads {
        let _ = t.join();
    }
    for s in STATES.iter() {
        s.store(OFF, SeqCst);
    }
    Ok(decisions)
}

// ---------------------------------------------------------------------------
// Programs: a script of operations for each thread

trait System {
    type Op: Clone + Debug + Send + Sync + 'static;
    type World: Send + Sync + 'static;
    fn fresh(&self) -> Result<Arc<Self::World>, String>;
    fn apply(w: &Self::World, op: &Self::Op) -> String;
    /// What all the threads do first, to make the lock that they share known.
    fn touch(_: &Self::World) {}
    /// What is there at last; cleans up.
    fn end(w: &Self::World) -> String;
}

/// The results of each thread, and what is there at last.
type Outcome = (Vec<Vec<String>>, String);

fn execute<S: System>(s: &S, scripts: &[Vec<S::Op>], fine: bool, pick: &mut dyn FnMut(&[usize], bool) -> usize) -> Result<(Outcome, Vec<Decision>), String> {
    let w = s.fresh()?;
    let results: Arc<Vec<std::sync::Mutex<Vec<String>>>> = Arc::new(scripts.iter().map(|_| Default::default()).collect());
    let mut bodies: Vec<(Box<dyn FnOnce() + Send>, Box<dyn FnOnce() + Send>)> = vec![];
    for (i, ops) in scripts.iter().enumerate() {
        let (w, ops, results) = (w.clone(), ops.clone(), results.clone());
        let w2 = w.clone();
        let first = move || {
            let _ = no_panic(|| S::touch(&w2));
        };
        bodies.push((Box::new(first), Box::new(move || {
            let mut out = Vec::with_capacity(ops.len());
            for (k, op) in ops.iter().enumerate() {
                if k > 0 {
                    wait(READY);
                }
                out.push(match no_panic(|| S::apply(&w, op)) {
                    Ok(x) => x,
                    Err(e) => e,
                });
            }
            // Not a lock of the program.
            ME.with(|m| m.set(0));
            *results[i].lock().unwrap() = out;
            ME.with(|m| m.set(i + 1));
        })));
    }
    FINE.store(fine, SeqCst);
    let d = control(bodies, pick);
    FINE.store(false, SeqCst);
    let d = d?;
    let per = results.iter().map(|r| r.lock().unwrap().clone()).collect();
    Ok(((per, S::end(&w)), d))
}

/// Every schedule with up to `bound` preemptions.
fn schedules<S: System>(s: &S, scripts: &[Vec<S::Op>], fine: bool, bound: usize, each: &mut dyn FnMut(Outcome, &[Decision]) -> Result<(), String>) -> Result<(), String> {
    let mut prefix: Vec<usize> = vec![];
    loop {
        let mut at = 0;
        let (out, ds) = execute(s, scripts, fine, &mut |_, _| {
            at += 1;
            prefix.get(at - 1).copied().unwrap_or(0)
        })?;
        each(out, &ds)?;
        let mut i = ds.len();
        loop {
            if i == 0 {
                return Ok(());
            }
            i -= 1;
            let d = &ds[i];
            let before: usize = ds[..i].iter().map(Decision::cost).sum();
            if d.chosen + 1 < d.options && before + (d.could as usize) <= bound {
                prefix = ds[..i].iter().map(|d| d.chosen).collect();
                prefix.push(d.chosen + 1);
                break;
            }
        }
    }
}

/// Whatever the schedule, the outcome is that of the operations one after the other, in some order.
fn program<S: System>(c: &mut Ctx, s: &S, scripts: &[Vec<S::Op>], bound: usize) -> Result<(), String> {
    let mut allowed: BTreeSet<Outcome> = BTreeSet::new();
    schedules(s, scripts, false, usize::MAX / 2, &mut |o, _| {
        c.step();
        allowed.insert(o);
        Ok(())
    })?;
    // The locks that are shared become known.
    for _ in 0..2 {
        execute(s, scripts, true, &mut |_, _| 0)?;
    }
    schedules(s, scripts, true, bound, &mut |o, ds| {
        c.step();
        c.state(&(format!("{:?}", scripts), ds.iter().map(|d| d.chosen).collect::<Vec<_>>()));
        if !allowed.contains(&o) {
            // What isn't under control (the threads of the database) can't be the
            // reason if it happens again.
            let again = (0..3).any(|_| {
                let mut at = 0;
                let r = execute(s, scripts, true, &mut |_, _| {
                    at += 1;
                    ds.get(at - 1).map_or(0, |d| d.chosen)
                });
                match r {
                    Ok((o, _)) => !allowed.contains(&o),
                    Err(_) => true,
                }
            });
            if !again {
                return Ok(());
            }
            let way: Vec<usize> = ds.iter().map(|d| d.chosen).collect();
            return Err(format!("schedule {:?}: the outcome {:?} is none of the orders', for example {:?}", way, o, allowed.iter().next()));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------
// The C interface

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Call {
    Init,
    Create(usize),
    Destroy(usize),
    DestroyNull,
    Count,
    /// Layer and accounts.
    Look(usize),
    Genesis(usize),
    Fund(usize),
    Pay(usize),
    /// To an account that isn't there.
    BadFund(usize),
    Deploy(usize),
    Spawn(usize),
    Run(usize),
    Trap(usize),
    Bad(usize),
    Commit(usize),
    Rewind(usize),
}

use Call::*;

struct CWorld {
    slots: Vec<AtomicUsize>,
    /// Those that were destroyed (their addresses may be those of others later).
    dead: Vec<AtomicBool>,
    base: u64,
    m: Arc<Msgs>,
}

struct Msgs {
    f: Fixed,
    spawn: Vec<u8>,
    run: Vec<u8>,
    trap: Vec<u8>,
}

struct CSystem {
    m: Arc<Msgs>,
    /// Runtimes that are there at first.
    have: usize,
}

fn show(r: svm_result_t) -> String {
    // Others may go on before the result is read.
    if FINE.load(SeqCst) && ME.with(|m| m.get()) != 0 && r != svm_result_t::OK {
        wait(READY);
    }
    if r.is_err() {
        // The text belongs to this call.
        let text = no_panic(|| r.unwrap()).err().unwrap_or_default();
        return text.split(" [").next().unwrap_or("").to_string();
    }
    match r.unwrap() {
        None => "ok".into(),
        Some(b) => format!("receipt {}", vh_core::hex(&b)),
    }
}

impl System for CSystem {
    type Op = Call;
    type World = CWorld;

    fn fresh(&self) -> Result<Arc<CWorld>, String> {
        let w = CWorld { slots: (0..3).map(|_| AtomicUsize::new(0)).collect(), dead: (0..3).map(|_| AtomicBool::new(false)).collect(), base: svm_runtimes_count(), m: self.m.clone() };
        for i in 0..self.have {
            for op in [Create(i), Genesis(i)] {
                let r = Self::apply(&w, &op);
                if r != "ok" {
                    return Err(format!("{:?}: {}", op, r));
                }
            }
        }
        Ok(Arc::new(w))
    }

    fn apply(w: &CWorld, op: &Call) -> String {
        let at = |i: &usize| w.slots[*i].load(SeqCst) as *mut c_void;
        let (a, b) = (Address::repeat(1), Address::repeat(2));
        let (pa, pb) = (a.as_slice().as_ptr(), b.as_slice().as_ptr());
        let env = envelope(&a, Some(1 << 60)).encode_to_vec();
        let ctx = Context::new(TransactionId::repeat(5), Layer(3), State::repeat(6)).encode_to_vec();
        let f = &w.m.f;
        unsafe {
            match op {
                Init => show(svm_init()),
                Create(i) => {
                    let mut p: *mut c_void = std::ptr::null_mut();
                    let r = show(svm_runtime_create(&mut p, std::ptr::null(), 0));
                    if p.is_null() {
                        return format!("{}, without a handle", r);
                    }
                    w.slots[*i].store(p as usize, SeqCst);
                    r
                }
                Destroy(i) => {
                    let r = show(svm_runtime_destroy(at(i)));
                    if r == "ok" && w.dead[*i].swap(true, SeqCst) {
                        return "destroyed twice".into();
                    }
                    r
                }
                DestroyNull => show(svm_runtime_destroy(std::ptr::null_mut())),
                Count => format!("{}", svm_runtimes_count() - w.base),
                Look(i) => {
                    let (mut hash, mut layer) = ([0u8; 32], 0u64);
                    let info = show(svm_layer_info(at(i), hash.as_mut_ptr(), &mut layer));
                    let changes = show(svm_uncommitted_changes(at(i)));
                    let mut x = svm_account::default();
                    let mut accts = vec![];
                    for p in [pa, pb, f.addrs[spawned(0)].as_slice().as_ptr()] {
                        let r = show(svm_get_account(at(i), p, &mut x));
                        accts.push((r, x.balance, x.counter()));
                    }
                    let info = if info == "ok" { format!("{} {}", layer, vh_core::hex(&hash)) } else { "no layer".into() };
                    format!("{} {} {:?}", info, changes, accts)
                }
                Genesis(i) => {
                    let r = show(svm_create_genesis_account(at(i), pa, 1000, 0, 7));
                    if r != "ok" {
                        return r;
                    }
                    show(svm_create_genesis_account(at(i), pb, 10 + *i as u64, 0, 8))
                }
                Fund(i) => show(svm_increase_balance(at(i), pb, 100 + *i as u64)),
                Pay(i) => show(svm_transfer(at(i), pa, pb, 30 + *i as u64)),
                BadFund(i) => show(svm_increase_balance(at(i), Address::repeat(0x60 + *i as u8).as_slice().as_ptr(), 1)),
                Deploy(i) => show(svm_deploy(at(i), env.as_ptr(), f.msgs[0].as_ptr(), f.msgs[0].len() as u32, ctx.as_ptr())),
                Spawn(i) => show(svm_spawn(at(i), env.as_ptr(), w.m.spawn.as_ptr(), w.m.spawn.len() as u32, ctx.as_ptr())),
                Run(i) => show(svm_call(at(i), env.as_ptr(), w.m.run.as_ptr(), w.m.run.len() as u32, ctx.as_ptr())),
                Trap(i) => show(svm_call(at(i), env.as_ptr(), w.m.trap.as_ptr(), w.m.trap.len() as u32, ctx.as_ptr())),
                Bad(i) => show(svm_validate_spawn(at(i), w.m.run.as_ptr(), 3)),
                Commit(i) => show(svm_commit(at(i))),
                Rewind(i) => show(svm_rewind(at(i), 0)),
            }
        }
    }

    fn end(w: &CWorld) -> String {
        let mut out = vec![];
        let live: Vec<usize> = (0..w.slots.len()).filter(|i| w.slots[*i].load(SeqCst) != 0 && !w.dead[*i].load(SeqCst)).collect();
        let handles: BTreeSet<usize> = live.iter().map(|i| w.slots[*i].load(SeqCst)).collect();
        if handles.len() < live.len() {
            return "two runtimes have the same handle".into();
        }
        for i in &live {
            out.push(Self::apply(w, &Look(*i)));
        }
        out.push(Self::apply(w, &Count));
        for i in &live {
            out.push(Self::apply(w, &Destroy(*i)));
        }
        out.push(Self::apply(w, &Count));
        format!("{:?}", out)
    }
}

fn msgs() -> Arc<Msgs> {
    let f = fixed();
    let acct = f.addrs[spawned(0)];
    let call = |script: &[St]| Transaction { version: 0, target: acct, func_name: "script".into(), calldata: encode(script, &f.addrs), verifydata: vec![] }.encode_to_vec();
    let run = call(&[St::Set64(0, 0x0102_0304_0506_0708), St::Get64(0), St::Log(2, 3), St::Ret(9, 12)]);
    let trap = call(&[St::Set64(0, 99), St::Log(4, 3), St::Trap]);
    let spawn = SpawnAccount::new(0, &f.taddrs[0], "spawned", "ctor", encode(&[St::Set64(0, 7), St::Log(3, 5)], &f.addrs)).encode_to_vec();
    Arc::new(Msgs { f, spawn, run, trap })
}

/// The scripts, in exactly this order of threads.
fn ordered(s: &CSystem, scripts: &[Vec<Call>], order: &[usize]) -> Result<Outcome, String> {
    let mut at = 0;
    let (o, _) = execute(s, scripts, false, &mut |ready, _| {
        // Forced moves aren't asked about.
        while at < order.len() {
            let t = order[at];
            at += 1;
            if let Some(k) = ready.iter().position(|r| *r == t + 1) {
                return k;
            }
        }
        0
    })?;
    Ok(o)
}

/// All the ways to merge scripts of these lengths.
fn merges(lens: &[usize], f: &mut dyn FnMut(&[usize])) {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if left.iter().all(|x| *x == 0) {
            return f(cur);
        }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                cur.push(t);
                go(left, cur, f);
                cur.pop();
                left[t] += 1;
            }
        }
    }
    go(&mut lens.to_vec(), &mut vec![], f)
}

// ---------------------------------------------------------------------------
// Handles on one store

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum StoreOp {
    Write(usize, usize),
    Save,
    Commit,
    Discard,
    Rewind(u64),
    Read(usize),
    ReadAt(usize, u64),
    Last,
    Changes,
}

struct SWorld {
    t: Arc<Tokio>,
    gs: GlobalState,
}

struct SSystem {
    /// What was done before.
    before: Vec<StoreOp>,
}

fn core(v: usize) -> Sections {
    let mut s = Sections::with_capacity(1);
    s.insert(Section::Code(CodeSection::new(CodeKind::Wasm, vec![v as u8; 3], 0, GasMode::Fixed, 0)));
    s
}

fn tpl(i: usize) -> TemplateAddr {
    TemplateAddr::repeat(0x30 + i as u8)
}

impl System for SSystem {
    type Op = StoreOp;
    type World = SWorld;

    fn fresh(&self) -> Result<Arc<SWorld>, String> {
        // The runtime ends with the world, and with it the threads of the database.
        let t = Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap());
        let gs = t.block_on(GlobalState::in_memory(no_genesis()));
        for i in 0..2 {
            t.block_on(TemplateStorage::create(gs.clone(), &tpl(i), core(i), Sections::with_capacity(0))).map_err(|e| format!("{:?}", e))?;
        }
        let w = SWorld { t, gs };
        for op in &self.before {
            Self::apply(&w, op);
        }
        Ok(Arc::new(w))
    }

    fn apply(w: &SWorld, op: &StoreOp) -> String {
        // Each thread has a handle of its own.
        let mut gs = w.gs.clone();
        let t = &w.t;
        let code = |gs: GlobalState, i: usize| match TemplateStorage::load(gs, &tpl(i)) {
            Err(e) => format!("{:?}", e),
            Ok(s) => match t.block_on(s.sections()) {
                Ok(s) => format!("{:?}", s.get(SectionKind::Code).as_code().code()),
                Err(e) => format!("{:?}", e),
            },
        };
        match op {
            StoreOp::Write(i, v) => {
                let mut s = TemplateStorage::load(gs, &tpl(*i)).unwrap();
                format!("{:?}", t.block_on(s.set_core(&core(*v))).map_err(|e| format!("{:?}", e)))
            }
            StoreOp::Save => format!("{:?}", t.block_on(gs.checkpoint()).map_err(|e| format!("{:?}", e))),
            StoreOp::Commit => format!("{:?}", t.block_on(gs.commit()).map_err(|e| format!("{:?}", e))),
            StoreOp::Discard => format!("{:?}", t.block_on(gs.rollback()).map_err(|e| format!("{:?}", e))),
            StoreOp::Rewind(l) => format!("{:?}", t.block_on(gs.rewind(Layer(*l))).map_err(|e| format!("{:?}", e))),
            StoreOp::Read(i) => code(gs, *i),
            StoreOp::ReadAt(i, l) => {
                *gs.layer_query_parameter_mut() = Some(Layer(*l));
                code(gs, *i)
            }
            StoreOp::Last => format!("{:?}", t.block_on(gs.current_state()).map_err(|e| format!("{:?}", e))),
            StoreOp::Changes => format!("{:?}", gs.has_uncommitted_changes()),
        }
    }

    fn touch(w: &SWorld) {
        let _ = w.gs.has_uncommitted_changes();
    }

    fn end(w: &SWorld) -> String {
        let mut out = vec![];
        let mut ops = vec![StoreOp::Changes, StoreOp::Last, StoreOp::Read(0), StoreOp::Read(1)];
        for l in 0..4 {
            ops.extend([StoreOp::ReadAt(0, l), StoreOp::ReadAt(1, l)]);
        }
        ops.extend([StoreOp::Save, StoreOp::Commit, StoreOp::Read(0), StoreOp::Read(1)]);
        for op in &ops {
            out.push(Self::apply(w, op));
        }
        format!("{:?}", out)
    }
}

pub fn v28(c: &mut Ctx) {
    let _ = svm_init();
    let m = msgs();
    let none = CSystem { m: m.clone(), have: 0 };
    let two = CSystem { m: m.clone(), have: 2 };

    // Two threads with a runtime each: all the orders of their calls.
    let long = |i: usize| vec![Create(i), Genesis(i), Deploy(i), Spawn(i), Run(i), Look(i), Destroy(i)];
    let scripts: Vec<[Vec<Call>; 2]> = vec![
        [vec![Create(0), Genesis(0), Deploy(0), Spawn(0), Look(0)], vec![Create(1), Genesis(1), Deploy(1), Commit(1), Destroy(1)]],
        [vec![Create(0), Genesis(0), Pay(0), Commit(0), Look(0)], vec![Create(1), Genesis(1), BadFund(1), Look(1), Destroy(1)]],
        [vec![Create(0), Deploy(0), Spawn(0), Run(0), Trap(0)], vec![Create(1), Deploy(1), Spawn(1), Trap(1), Run(1)]],
        [vec![Create(0), Bad(0), Genesis(0), Fund(0), Destroy(0)], vec![Create(1), Genesis(1), Commit(1), Rewind(1), Look(1)]],
    ];
    let solo = |s: &CSystem, script: &[Call]| -> Result<Outcome, String> { ordered(s, &[script.to_vec()], &[]) };
    for (k, s) in scripts.iter().enumerate() {
        merges(&[s[0].len(), s[1].len()], &mut |order| {
            c.case(|| format!("calls {}, order {:?}", k, order), |c| {
                c.steps(order.len() as u64);
                let alone = [solo(&none, &s[0])?, solo(&none, &s[1])?];
                let (got, _) = ordered(&none, s, order)?;
                for t in 0..2 {
                    if got[t] != alone[t].0[0] {
                        return Err(format!("thread {} with {:?} gets {:?}, alone {:?}", t, s[t], got[t], alone[t].0[0]));
                    }
                }
                c.state(&(k, order));
                Ok(())
            });
        });
    }
    // One runtime, passed from thread to thread.
    let script = long(0);
    for n in 1..=c.pick(5usize, 7) {
        let script = script[..n].to_vec();
        sequences(3, n, &mut |who| {
            // New threads in order.
            let mut next = 0;
            for w in who {
                if *w > next {
                    return;
                }
                if *w == next {
                    next += 1;
                }
            }
            c.case(|| format!("{:?} by the threads {:?}", script, who), |c| {
                c.steps(n as u64);
                let mut scripts = vec![vec![]; 3];
                for (op, w) in script.iter().zip(who) {
                    scripts[*w].push(*op);
                }
                let (got, end) = ordered(&none, &scripts, who)?;
                let (want, wend) = solo(&none, &script)?;
                let mut iters: Vec<_> = got.iter().map(|g| g.iter()).collect();
                let all: Vec<String> = who.iter().map(|w| iters[*w].next().cloned().unwrap_or_default()).collect();
                if all != want[0] || end != wend {
                    return Err(format!("{:?} {}, by one thread {:?} {}", all, end, want[0], wend));
                }
                c.state(&(n, who));
                Ok(())
            });
        });
    }
    // Locks: pairs and triples of calls, and short scripts, in all the schedules.
    let bound = c.pick(2, 3);
    let singles = [Init, Create(2), Destroy(0), Destroy(1), DestroyNull, Count, Look(0), Look(1), Fund(0), Pay(1), BadFund(0), Bad(1), Commit(0), Deploy(0), Deploy(1)];
    let of = |op: &Call| match op {
        Look(i) | Genesis(i) | Fund(i) | Pay(i) | BadFund(i) | Deploy(i) | Spawn(i) | Run(i) | Trap(i) | Bad(i) | Commit(i) | Rewind(i) => Some(*i),
        _ => None,
    };
    // A runtime is used by one thread at a time; two may want to destroy it.
    let fits = |v: &[Call]| {
        for (i, a) in v.iter().enumerate() {
            for b in &v[i + 1..] {
                let touched = |x: &Call| of(x).or(match x {
                    Destroy(i) => Some(*i),
                    _ => None,
                });
                if touched(a).is_some() && touched(a) == touched(b) && (of(a).is_some() || of(b).is_some()) {
                    return false;
                }
                if a == b && matches!(a, Create(_)) {
                    return false;
                }
            }
        }
        true
    };
    let mut programs: Vec<Vec<Vec<Call>>> = vec![];
    for (i, a) in singles.iter().enumerate() {
        for b in &singles[i..] {
            if fits(&[*a, *b]) {
                programs.push(vec![vec![*a], vec![*b]]);
            }
        }
    }
    let quick = [Destroy(0), Destroy(1), DestroyNull, Count, Fund(0), BadFund(1), Init];
    for (i, a) in quick.iter().enumerate() {
        for (j, b) in quick.iter().enumerate().skip(i) {
            for x in quick.iter().skip(j) {
                if fits(&[*a, *b, *x]) {
                    programs.push(vec![vec![*a], vec![*b], vec![*x]]);
                }
            }
        }
    }
    programs.push(vec![vec![Destroy(0), Count], vec![Destroy(0), Count]]);
    programs.push(vec![vec![Destroy(0), Count], vec![Destroy(1), Count]]);
    programs.push(vec![vec![Destroy(0), Destroy(1)], vec![Destroy(1), Destroy(0)]]);
    programs.push(vec![vec![Fund(0), Destroy(0)], vec![Fund(1), Destroy(1)]]);
    programs.push(vec![vec![Fund(0), Look(0)], vec![Fund(1), Look(1)]]);
    for p in &programs {
        c.case(|| format!("locks {:?}", p), |c| program(c, &two, p, bound));
    }
    // One store, several handles.
    use StoreOp as O;
    let befores: Vec<Vec<O>> = vec![
        vec![O::Save, O::Commit],
        vec![O::Save, O::Commit, O::Write(0, 5), O::Save],
        vec![O::Save, O::Commit, O::Write(0, 5), O::Save, O::Commit, O::Write(1, 6), O::Save, O::Write(0, 7)],
    ];
    let ops = [O::Write(0, 8), O::Write(1, 9), O::Save, O::Commit, O::Discard, O::Rewind(0), O::Rewind(1), O::Last, O::Changes];
    for (k, before) in befores.iter().enumerate() {
        let s = SSystem { before: before.clone() };
        for (i, a) in ops.iter().enumerate() {
            for (j, b) in ops.iter().enumerate() {
                if i <= j {
                    let p = vec![vec![*a], vec![*b]];
                    c.case(|| format!("store {}: {:?}", k, p), |c| program(c, &s, &p, bound));
                    for x in &ops[j..] {
                        let p = vec![vec![*a], vec![*b], vec![*x]];
                        c.case(|| format!("store {}: {:?}", k, p), |c| program(c, &s, &p, bound));
                    }
                }
                for x in &ops {
                    let p = vec![vec![*a, *b], vec![*x]];
                    c.case(|| format!("store {}: {:?}", k, p), |c| program(c, &s, &p, bound));
                }
            }
        }
        // Readers at a layer see the same, whatever happens.
        for a in &ops {
            if matches!(a, O::Rewind(_)) {
                continue;
            }
            let p = vec![vec![*a], vec![O::ReadAt(0, 0)]];
            c.case(|| format!("store {}: {:?}", k, p), |c| program(c, &s, &p, bound));
        }
    }
}
