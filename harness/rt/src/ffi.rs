//! V08: the C interface.
//!
//! Histories of calls over two runtimes. Next to each runtime behind the C
//! interface lives a twin that is driven directly; results, receipts (byte for
//! byte), accounts, layers and the number of runtimes are compared after every
//! call. A crash of the process is a violation by itself.

use std::collections::HashMap;
use std::ffi::c_void;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use svm_codec::Codec;
use svm_genesis_config::GenesisConfig;
use svm_runtime::{PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_runtime_ffi::*;
use svm_state::GlobalState;
use svm_types::*;
use vh_core::{hash_of, no_panic, Ctx};

use crate::admit::deploy_msg;
use crate::chain::{encode, envelope, fixed, spawned, Fixed, St};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Where {
    Memory,
    File,
    NoSuchDir,
    NotUtf8,
    /// A file whose path has that many bytes, or a bit more.
    Long(u16),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Msg {
    Deploy,
    DeployLate,
    Spawn,
    SpawnFailing,
    SpawnUnknown,
    Call,
    CallEcho,
    CallTrap,
    CallPanic,
    CallUnknown,
    Empty,
    Short,
    /// A deployment with that many further bytes.
    Padded(u32),
    /// A call that returns that many bytes.
    Bytes(u8),
    /// A call of a function whose name has that many bytes.
    Named(u8),
    /// A spawn with names of that many bytes.
    Names(u8),
}

use Msg::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Create(Where),
    Destroy,
    DestroyNull,
    DestroyGarbage,
    Init,
    ValDeploy(Msg),
    ValSpawn(Msg),
    ValCall(Msg),
    TxDeploy(Msg, u64),
    TxSpawn(Msg, u64),
    TxCall(Msg),
    TxVerify(Msg),
    /// (address, balance, counter)
    Genesis(u8, u64, u128),
    Fund(u8, u64),
    Send(u8, u8, u64),
    Commit,
    Rewind(u64),
}

use Op::*;

const PLENTY: u64 = 1 << 60;
const PADS: [u32; 9] = [0, 1, 100, 200, 300, 60_000, 65_000, 70_000, 140_000];
const LONG: [u16; 7] = [200, 230, 254, 255, 256, 257, 330];

struct Twin {
    rt: Runtime,
}

impl Twin {
    fn new(path: Option<&Path>) -> Twin {
        let t = Arc::new(tokio::runtime::Runtime::new().unwrap());
        let genesis = GenesisConfig::mainnet();
        let gs = match path {
            None => t.block_on(GlobalState::in_memory(genesis)),
            Some(p) => t.block_on(GlobalState::new(&format!("sqlite://{}?mode=rwc", p.display()), genesis)),
        };
        Twin { rt: Runtime::new(t, gs, TemplatePriceCache::new(PriceResolverRegistry::default())) }
    }
}

struct Slot {
    ptr: *mut c_void,
    twin: Option<Twin>,
    file: Option<PathBuf>,
}

pub struct Shared {
    f: Fixed,
    msgs: HashMap<Msg, Vec<u8>>,
    addrs: Vec<Address>,
}

fn shared() -> Shared {
    let f = fixed();
    let mut msgs = HashMap::new();
    let acct = f.addrs[spawned(0)];
    let call = |target: &Address, func: &str, script: &[St]| {
        let data = if script.is_empty() { vec![] } else { encode(script, &f.addrs) };
        Transaction { version: 0, target: *target, func_name: func.to_string(), calldata: data.clone(), verifydata: data }.encode_to_vec()
    };
    let spawn = |t: usize, ctor: &str, script: &[St]| SpawnAccount::new(0, &f.taddrs[t], "spawned", ctor, encode(script, &f.addrs)).encode_to_vec();
    msgs.insert(Deploy, f.msgs[0].clone());
    msgs.insert(DeployLate, f.msgs[1].clone());
    msgs.insert(Spawn, spawn(0, "ctor", &[St::Set64(0, 7), St::Log(3, 5)]));
    msgs.insert(SpawnFailing, spawn(0, "ctor", &[St::Log(1, 1), St::Trap]));
    msgs.insert(SpawnUnknown, spawn(5, "ctor", &[St::Nop]));
    msgs.insert(Call, call(&acct, "script", &[St::Set64(0, 0x0102_0304_0506_0708), St::Get64(0), St::Ret(9, 12)]));
    msgs.insert(CallEcho, call(&acct, "echo", &[St::Log(1, 2)]));
    msgs.insert(CallTrap, call(&acct, "script", &[St::Set64(0, 99), St::Log(4, 3), St::Trap]));
    msgs.insert(CallPanic, call(&acct, "script", &[St::Set64(0, 98), St::LogOob]));
    msgs.insert(CallUnknown, call(&Address::repeat(0x77), "script", &[St::Nop]));
    let code = wat::parse_str(&f.tmpl[0].wat).unwrap();
    for n in PADS {
        let mut code = code.clone();
        let mut body = vec![1, b'x'];
        body.resize(2 + n as usize, 0xA7);
        code.push(0);
        let mut k = body.len();
        loop {
            code.push((k & 127) as u8 | if k > 127 { 128 } else { 0 });
            k >>= 7;
            if k == 0 {
                break;
            }
        }
        code.extend_from_slice(&body);
        msgs.insert(Padded(n), deploy_msg(code, f.tmpl[0].sizes, f.tmpl[0].ctors));
    }
    for n in 0..=255u8 {
        let data: Vec<u8> = (0..n).map(|i| i ^ n).collect();
        let echo = Transaction { version: 0, target: acct, func_name: "echo".into(), calldata: data.clone(), verifydata: data };
        msgs.insert(Bytes(n), echo.encode_to_vec());
        let name = "f".repeat(n as usize);
        msgs.insert(Named(n), call(&acct, &name, &[St::Nop]));
        msgs.insert(Names(n), SpawnAccount::new(0, &f.taddrs[0], &name, &name, vec![n; n as usize]).encode_to_vec());
    }
    msgs.insert(Empty, vec![]);
    let whole = msgs[&Call].clone();
    msgs.insert(Short, whole[..whole.len() - 9].to_vec());
    let addrs = vec![Address::repeat(0), Address::repeat(1), Address::repeat(2), acct];
    Shared { f, msgs, addrs }
}

struct World<'a> {
    sh: &'a Shared,
    slots: [Slot; 2],
    live: u64,
    dir: PathBuf,
    stale: Vec<*mut c_void>,
}

fn bytes_of(r: &svm_result_t) -> Result<Option<Vec<u8>>, String> {
    if r.is_ok() == r.is_err() {
        return Err("the result is neither a success nor an error".into());
    }
    Ok(r.receipt().map(|b| b.to_vec()))
}

/// What a call gave, by the C interface or directly.
#[derive(PartialEq, Debug, Clone)]
enum Out {
    Ok,
    Receipt(Vec<u8>),
    Err,
}

fn outcome(r: svm_result_t) -> Result<Out, String> {
    let bytes = bytes_of(&r)?;
    if r.is_err() {
        if bytes.is_some() {
            return Err("an error with a receipt".into());
        }
        // Errors must be told in text.
        let text = no_panic(|| r.unwrap()).err().ok_or("unwrapping an error gave no panic")?;
        if !text.contains("Error: ") {
            return Err(format!("unwrapping an error: {}", text));
        }
        return Ok(Out::Err);
    }
    let taken = no_panic(|| r.unwrap())?;
    if taken != bytes {
        return Err(format!("the receipt taken out is {:?}, but it was {:?}", taken, bytes));
    }
    Ok(match bytes {
        None => Out::Ok,
        Some(b) => Out::Receipt(b),
    })
}

fn twin_receipt(r: Result<Vec<u8>, String>) -> Out {
    match r {
        Ok(b) => Out::Receipt(b),
        Err(_) => Out::Err,
    }
}

fn twin_result<T, E>(r: Result<Result<T, E>, String>) -> Out {
    match r {
        Ok(Ok(_)) => Out::Ok,
        _ => Out::Err,
    }
}

fn open_files(p: &Path) -> usize {
    let mut n = 0;
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.starts_with(p) || t.to_string_lossy().starts_with(&*p.to_string_lossy()) {
                    n += 1;
                }
            }
        }
    }
    n
}

impl<'a> World<'a> {
    fn apply(&mut self, s: usize, op: &Op) -> Result<(), String> {
        let ptr = self.slots[s].ptr;
        let sh = self.sh;
        let live = self.slots[s].twin.is_some();
        let env = |gas: u64| envelope(&sh.addrs[1], Some(gas));
        let ctx = Context::new(TransactionId::repeat(5), Layer(3), State::repeat(6));
        let ctxb = ctx.encode_to_vec();
        let (got, want) = match op {
            Create(place) => {
                if live {
                    return Ok(()); // the handle would be lost
                }
                let mut p: *mut c_void = std::ptr::null_mut();
                let mut file = self.dir.join(format!("ffi{}.db", s));
                if let Where::Long(n) = place {
                    // (a folder's name has at most 255 bytes)
                    let mut d = self.dir.clone();
                    while d.as_os_str().len() + 12 < *n as usize {
                        let rest = *n as usize - d.as_os_str().len() - 12;
                        d = d.join("d".repeat(rest.min(100)));
                    }
                    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
                    file = d.join(format!("f{}.db", s));
                }
                let path: Option<Vec<u8>> = match place {
                    Where::Memory => None,
                    Where::File | Where::Long(_) => Some(format!("sqlite://{}?mode=rwc", file.display()).into()),
                    Where::NoSuchDir => Some(self.dir.join("none/x.db").to_str().unwrap().into()),
                    Where::NotUtf8 => {
                        let mut v: Vec<u8> = file.to_str().unwrap().into();
                        v.extend_from_slice(&[0xff, 0xfe]);
                        Some(v)
                    }
                };
                let r = match &path {
                    None => unsafe { svm_runtime_create(&mut p, std::ptr::null(), 0) },
                    Some(b) => unsafe { svm_runtime_create(&mut p, b.as_ptr(), b.len() as u32) },
                };
                let got = outcome(r)?;
                let good = matches!(place, Where::Memory | Where::File | Where::Long(_));
                if good && got == Out::Ok {
                    if p.is_null() || self.slots.iter().any(|x| x.twin.is_some() && x.ptr == p) {
                        return Err("the new runtime has the handle of another, or none".into());
                    }
                    self.live += 1;
                    let twin_file = self.dir.join(format!("twin{}.db", s));
                    let file = if *place != Where::Memory { Some(file) } else { None };
                    if let Some(f) = &file {
                        if !f.exists() {
                            return Err("the database isn't where it should be".into());
                        }
                    }
                    self.slots[s] = Slot { ptr: p, twin: Some(Twin::new(file.as_ref().map(|_| &*twin_file))), file };
                    self.stale.retain(|x| *x != p);
                }
                (got, if good { Out::Ok } else { Out::Err })
            }
            Destroy => {
                let got = outcome(svm_runtime_destroy(ptr))?;
                if live {
                    self.slots[s].twin = None;
                    self.live -= 1;
                    self.stale.push(ptr);
                    if let Some(f) = self.slots[s].file.take() {
                        // The threads of the database take a moment to end.
                        let mut n = open_files(&f);
                        for _ in 0..2000 {
                            if n == 0 {
                                break;
                            }
                            std::thread::sleep(std::time::Duration::from_millis(5));
                            n = open_files(&f);
                        }
                        if n > 0 {
                            return Err(format!("{} files of the destroyed runtime are still open", n));
                        }
                    }
                }
                (got, if live { Out::Ok } else { Out::Err })
            }
            DestroyNull => (outcome(svm_runtime_destroy(std::ptr::null_mut()))?, Out::Err),
            DestroyGarbage => (outcome(svm_runtime_destroy(0x1000usize as *mut c_void))?, Out::Err),
            Init => (outcome(svm_init())?, Out::Ok),
            ValDeploy(m) | ValSpawn(m) | ValCall(m) => {
                let b = &sh.msgs[m];
                let (p, n) = (b.as_ptr(), b.len() as u32);
                let r = unsafe {
                    match op {
                        ValDeploy(_) => svm_validate_deploy(ptr, p, n),
                        ValSpawn(_) => svm_validate_spawn(ptr, p, n),
                        _ => svm_validate_call(ptr, p, n),
                    }
                };
                let want = match &self.slots[s].twin {
                    None => Out::Err,
                    Some(t) => twin_result(no_panic(|| match op {
                        ValDeploy(_) => t.rt.validate_deploy(b),
                        ValSpawn(_) => t.rt.validate_spawn(b),
                        _ => t.rt.validate_call(b),
                    })),
                };
                (outcome(r)?, want)
            }
            TxDeploy(m, gas) | TxSpawn(m, gas) => {
                let b = &sh.msgs[m];
                let (p, n) = (b.as_ptr(), b.len() as u32);
                let e = env(*gas);
                let eb = e.encode_to_vec();
                let deploy = matches!(op, TxDeploy(..));
                let r = unsafe {
                    if deploy {
                        svm_deploy(ptr, eb.as_ptr(), p, n, ctxb.as_ptr())
                    } else {
                        svm_spawn(ptr, eb.as_ptr(), p, n, ctxb.as_ptr())
                    }
                };
                let want = match &mut self.slots[s].twin {
                    None => Out::Err,
                    Some(t) => twin_receipt(no_panic(|| if deploy { t.rt.deploy(&e, b, &ctx).encode_to_vec() } else { t.rt.spawn(&e, b, &ctx).encode_to_vec() })),
                };
                (outcome(r)?, want)
            }
            TxCall(m) | TxVerify(m) => {
                let b = &sh.msgs[m];
                let (p, n) = (b.as_ptr(), b.len() as u32);
                let e = env(PLENTY);
                let eb = e.encode_to_vec();
                let call = matches!(op, TxCall(_));
                let r = unsafe {
                    if call {
                        svm_call(ptr, eb.as_ptr(), p, n, ctxb.as_ptr())
                    } else {
                        svm_verify(ptr, eb.as_ptr(), p, n, ctxb.as_ptr())
                    }
                };
                let want = match &mut self.slots[s].twin {
                    None => Out::Err,
                    Some(t) => twin_receipt(no_panic(|| if call { t.rt.call(&e, b, &ctx).encode_to_vec() } else { t.rt.verify(&e, b, &ctx).encode_to_vec() })),
                };
                (outcome(r)?, want)
            }
            Genesis(a, balance, counter) => {
                let a = sh.addrs[*a as usize];
                let r = unsafe { svm_create_genesis_account(ptr, a.as_slice().as_ptr(), *balance, (*counter >> 64) as u64, *counter as u64) };
                let want = match &mut self.slots[s].twin {
                    None => Out::Err,
                    Some(t) => twin_result(no_panic(|| t.rt.create_genesis_account(&a, "".to_string(), *balance, *counter))),
                };
                let got = outcome(r)?;
                if got == Out::Ok {
                    // What was asked for is there.
                    let mut acct = svm_account::default();
                    let r = unsafe { svm_get_account(ptr, a.as_slice().as_ptr(), &mut acct) };
                    if outcome(r)? != Out::Ok || acct.balance != *balance || acct.counter() != *counter {
                        return Err(format!("the account created is {:?}", acct));
                    }
                }
                (got, want)
            }
            Fund(a, x) => {
                let a = sh.addrs[*a as usize];
                let r = unsafe { svm_increase_balance(ptr, a.as_slice().as_ptr(), *x) };
                let want = match &mut self.slots[s].twin {
                    None => Out::Err,
                    Some(t) => twin_result(no_panic(|| t.rt.increase_balance(&a, *x))),
                };
                (outcome(r)?, want)
            }
            Send(a, b, x) => {
                let (a, b) = (sh.addrs[*a as usize], sh.addrs[*b as usize]);
                let r = unsafe { svm_transfer(ptr, a.as_slice().as_ptr(), b.as_slice().as_ptr(), *x) };
                let want = match &mut self.slots[s].twin {
                    None => Out::Err,
                    Some(t) => twin_result(no_panic(|| Ok::<(), ()>(t.rt.transfer(&a, &b, *x)))),
                };
                (outcome(r)?, want)
            }
            Commit => {
                let r = unsafe { svm_commit(ptr) };
                let want = match &mut self.slots[s].twin {
                    None => Out::Err,
                    Some(t) => twin_result(no_panic(|| t.rt.commit())),
                };
                (outcome(r)?, want)
            }
            Rewind(l) => {
                let r = unsafe { svm_rewind(ptr, *l) };
                let want = match &mut self.slots[s].twin {
                    None => Out::Err,
                    Some(t) => twin_result(no_panic(|| t.rt.rewind(Layer(*l)))),
                };
                (outcome(r)?, want)
            }
        };
        if got != want {
            return Err(format!("gave {:?}, the runtime itself {:?}", got, want));
        }
        if let Out::Receipt(b) = &got {
            if Receipt::decode_bytes(b).is_err() {
                return Err("the receipt can't be decoded".into());
            }
        }
        Ok(())
    }

    fn observe(&mut self) -> Result<(), String> {
        let n = svm_runtimes_count();
        if n != self.live {
            return Err(format!("{} runtimes are counted, there are {}", n, self.live));
        }
        for s in 0..2 {
            let ptr = self.slots[s].ptr;
            let stale = self.stale.contains(&ptr) || ptr.is_null();
            let mut hash = [0u8; 32];
            let mut layer = 0u64;
            let info = outcome(unsafe { svm_layer_info(ptr, hash.as_mut_ptr(), &mut layer) })?;
            let changes = outcome(unsafe { svm_uncommitted_changes(ptr) })?;
            match &mut self.slots[s].twin {
                None => {
                    if stale && (info != Out::Err || changes != Out::Err) {
                        return Err("a destroyed runtime still answers".into());
                    }
                }
                Some(t) => {
                    // Before the first commit there's no layer to tell about.
                    match no_panic(|| t.rt.current_layer()) {
                        Ok((l, h)) => {
                            if info != Out::Ok || l.0 != layer || h.0 != hash {
                                return Err(format!("runtime {}: layer {} instead of {} (or another fingerprint)", s, layer, l.0));
                            }
                        }
                        Err(_) => {
                            if info != Out::Err {
                                return Err(format!("runtime {}: a layer {} before any commit", s, layer));
                            }
                        }
                    }
                    let dirty = t.rt.has_uncommitted_changes().ok().unwrap();
                    if (changes == Out::Err) != dirty {
                        return Err(format!("runtime {}: uncommitted changes are told wrongly ({})", s, dirty));
                    }
                }
            }
            for a in &self.sh.addrs {
                let mut acct = svm_account { balance: 0xdead, ..Default::default() };
                let r = outcome(unsafe { svm_get_account(ptr, a.as_slice().as_ptr(), &mut acct) })?;
                match &mut self.slots[s].twin {
                    None => {
                        if stale && r != Out::Err {
                            return Err("a destroyed runtime still answers".into());
                        }
                    }
                    Some(t) => match t.rt.get_account(a) {
                        None => {
                            if r != Out::Err {
                                return Err("an account that isn't there is reported".into());
                            }
                        }
                        Some((b, c, t)) => {
                            if r != Out::Ok || acct.address != *a.as_slice() || acct.balance != b || acct.counter() != c || acct.counter_upper_bits != (c >> 64) as u64 || acct.template_addr != t.as_slice() {
                                return Err(format!("the account {:?} is reported as {:?}, but has {} {}", a, acct, b, c));
                            }
                        }
                    },
                }
            }
        }
        Ok(())
    }
}

fn run(c: &mut Ctx, sh: &Shared, ops: &[(usize, Op)]) -> Result<(), String> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let dir = c.scratch.join(format!("ffi{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).unwrap();
    let slot = || Slot { ptr: std::ptr::null_mut(), twin: None, file: None };
    let base = svm_runtimes_count();
    let mut w = World { sh, slots: [slot(), slot()], live: base, dir: dir.clone(), stale: vec![] };
    let mut res = Ok(());
    for (i, (s, op)) in ops.iter().enumerate() {
        c.step();
        res = w.apply(*s, op).and_then(|_| w.observe()).map_err(|e| format!("call {}: {:?}: {}", i, op, e));
        if res.is_err() {
            break;
        }
        let view: Vec<_> = w.slots.iter_mut().map(|s| s.twin.as_mut().map(|t| (no_panic(|| t.rt.current_layer().1 .0).ok(), t.rt.has_uncommitted_changes().ok(), sh.addrs.iter().map(|a| t.rt.get_account(a).map(|x| (x.0, x.1))).collect::<Vec<_>>()))).collect();
        c.state(&(hash_of(&format!("{:?}", view)), w.live - base));
    }
    // Everything can be released again.
    for s in 0..2 {
        if res.is_ok() && w.slots[s].twin.is_some() {
            res = w.apply(s, &Destroy).and_then(|_| w.observe());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    res
}

fn alphabet() -> Vec<Op> {
    let mut v = vec![Destroy, DestroyNull, DestroyGarbage, Init];
    for m in [Deploy, Spawn, Call, Empty, Short] {
        v.push(ValDeploy(m));
        v.push(ValSpawn(m));
        v.push(ValCall(m));
    }
    v.extend_from_slice(&[
        TxDeploy(DeployLate, PLENTY),
        TxDeploy(DeployLate, 1),
        TxDeploy(Empty, PLENTY),
        TxSpawn(Spawn, PLENTY),
        TxSpawn(Spawn, 1),
        TxSpawn(SpawnFailing, PLENTY),
        TxSpawn(SpawnUnknown, PLENTY),
        TxSpawn(Short, PLENTY),
        TxCall(Call),
        TxCall(CallEcho),
        TxCall(CallTrap),
        TxCall(CallPanic),
        TxCall(CallUnknown),
        TxCall(Short),
        TxVerify(CallEcho),
        TxVerify(Call),
        TxVerify(CallUnknown),
        Genesis(0, 5, 1 << 70),
        Genesis(1, u64::MAX, u128::MAX - 1),
        Genesis(3, 9, 2),
        Fund(1, 7),
        Fund(1, u64::MAX),
        Fund(0, 1),
        Send(1, 2, 30),
        Send(2, 1, 3),
        Send(1, 2, 1 << 50),
        Send(1, 0, 1),
        Commit,
        Rewind(0),
        Rewind(1),
        Rewind(7),
    ]);
    v
}

pub fn v08(c: &mut Ctx) {
    // Before anything else: nothing is created before `svm_init`.
    let mut p: *mut c_void = std::ptr::null_mut();
    let early = outcome(unsafe { svm_runtime_create(&mut p, std::ptr::null(), 0) });
    let early_count = svm_runtimes_count();
    let _ = outcome(svm_init());
    c.case(|| "before svm_init".into(), |_| match early {
        Ok(Out::Err) if early_count == 0 && p.is_null() => Ok(()),
        x => Err(format!("creating a runtime gave {:?}, {} runtimes", x, early_count)),
    });

    let sh = shared();
    let mem = (0, Create(Where::Memory));
    let file = (0, Create(Where::File));
    let start = |first: (usize, Op)| {
        vec![
            first,
            (0, Genesis(1, 1000, 3)),
            (0, Genesis(2, 50, 1 << 64)),
            (0, TxDeploy(Deploy, PLENTY)),
            (0, TxSpawn(Spawn, PLENTY)),
            (0, Commit),
        ]
    };
    let go = |c: &mut Ctx, pre: &str, prelude: &[(usize, Op)], ops: &[(usize, Op)]| {
        let mut all = prelude.to_vec();
        all.extend_from_slice(ops);
        c.case(|| format!("{} {:?}", pre, ops), |c| run(c, &sh, &all));
    };
    let al = alphabet();

    // One runtime with accounts in it: two calls of all kinds.
    let pre = start(mem);
    for a in &al {
        go(c, "one", &pre, &[(0, *a)]);
        for b in &al {
            go(c, "one", &pre, &[(0, *a), (0, *b)]);
        }
    }
    // A runtime with nothing in it, and no runtime at all.
    for a in &al {
        for b in &al {
            if !c.thorough() && !matches!(b, Destroy | Commit | TxCall(Call) | Fund(..) | TxSpawn(Spawn, PLENTY)) {
                continue;
            }
            go(c, "empty", &[mem], &[(0, *a), (0, *b)]);
            go(c, "none", &[], &[(0, *a), (0, *b)]);
        }
    }
    // Life cycles of two runtimes.
    let life = [
        Create(Where::Memory),
        Create(Where::File),
        Create(Where::NoSuchDir),
        Create(Where::NotUtf8),
        Destroy,
        DestroyNull,
        Genesis(1, 1000, 3),
        Commit,
    ];
    let mut all = vec![];
    for s in 0..2 {
        for o in &life {
            all.push((s, *o));
        }
    }
    let depth = c.pick(3, 4);
    for d in 1..=depth {
        vh_core::sequences(all.len(), d, &mut |v| {
            // By symmetry the first call is for the first runtime.
            if v[0] >= life.len() {
                return;
            }
            let ops: Vec<_> = v.iter().map(|i| all[*i]).collect();
            if !ops.iter().any(|(_, o)| matches!(o, Create(_))) {
                return;
            }
            go(c, "life", &[], &ops);
        });
    }
    // Two runtimes side by side: what one does isn't seen by the other.
    let pair = [
        TxDeploy(DeployLate, PLENTY),
        TxSpawn(Spawn, PLENTY),
        TxCall(Call),
        TxCall(CallTrap),
        TxCall(CallPanic),
        Genesis(2, 60, 1),
        Fund(1, 7),
        Send(1, 2, 30),
        Commit,
        Rewind(1),
        Rewind(7),
        Destroy,
    ];
    let mut pre2 = start(mem);
    pre2.extend([(1, Create(Where::Memory)), (1, Genesis(1, 20, 1)), (1, TxDeploy(Deploy, PLENTY)), (1, Commit)]);
    for a in &pair {
        for b in &pair {
            go(c, "two", &pre2, &[(0, *a), (1, *b)]);
            go(c, "two", &pre2, &[(1, *a), (0, *b)]);
            if c.thorough() {
                for x in &pair {
                    for s in 0..8 {
                        go(c, "two", &pre2, &[(s & 1, *a), (s >> 1 & 1, *b), (s >> 2 & 1, *x)]);
                    }
                }
            }
        }
    }
    // Databases on disk, closed and opened again.
    let pre3 = start(file);
    for a in &pair {
        go(c, "disk", &pre3, &[(0, *a), (0, Destroy), file, (0, TxCall(Call)), (0, Commit)]);
        for b in &pair {
            if c.thorough() || matches!(b, Commit | Rewind(_) | Fund(..)) {
                go(c, "disk", &pre3, &[(0, *a), (0, *b), (0, Destroy), file, (0, TxCall(Call))]);
            }
        }
    }
    // Messages, receipts and paths of any size.
    for n in PADS {
        let m = Padded(n);
        go(c, "size", &[mem], &[(0, ValDeploy(m)), (0, TxDeploy(m, PLENTY)), (0, TxDeploy(m, 1)), (0, Commit)]);
    }
    for n in 0..=255u8 {
        go(c, "size", &pre, &[(0, ValCall(Bytes(n))), (0, TxVerify(Bytes(n))), (0, TxCall(Bytes(n)))]);
        go(c, "size", &pre, &[(0, ValCall(Named(n))), (0, TxVerify(Named(n))), (0, TxCall(Named(n)))]);
        go(c, "size", &pre, &[(0, ValSpawn(Names(n))), (0, TxSpawn(Names(n), PLENTY)), (0, TxSpawn(Names(n), 1)), (0, TxCall(Call))]);
    }
    for n in LONG {
        let at = (0, Create(Where::Long(n)));
        go(c, "size", &start(at), &[(0, Destroy), at, (0, TxCall(Call)), (0, Commit), (0, Destroy)]);
    }
    let _ = &sh.f;
}
