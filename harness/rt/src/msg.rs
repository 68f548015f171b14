//! V25: what validation accepts is what gets executed.

use svm_codec::Codec;
use svm_runtime::{compute_account_addr, Runtime};
use svm_types::*;
use vh_core::{hex, no_panic, Ctx};

use crate::admit::{deploy_msg, runtime};

/// `run` and `ctor` return what they were given; `svm_verify` succeeds.
const ECHO: &str = "(module \
    (import \"svm\" \"svm_calldata_offset\" (func $off (result i32))) \
    (import \"svm\" \"svm_calldata_len\" (func $len (result i32))) \
    (import \"svm\" \"svm_set_returndata\" (func $ret (param i32 i32))) \
    (memory (export \"memory\") 1) \
    (func (export \"svm_alloc\") (param i32) (result i32) i32.const 64) \
    (func (export \"svm_verify\") (result i32) call $off call $len call $ret i32.const 0) \
    (func (export \"none\")) \
    (func (export \"ctor\") call $off call $len call $ret) \
    (func (export \"run\") call $off call $len call $ret))";

struct World {
    rt: Runtime,
    template: TemplateAddr,
    account: Address,
}

fn world() -> World {
    let mut rt = runtime();
    let msg = deploy_msg(wat::parse_str(ECHO).unwrap(), &[4], &["ctor", "absent"]);
    rt.validate_deploy(&msg).unwrap();
    let template = rt.deploy(&env(), &msg, &Context::default()).addr.unwrap();
    let account = Address::repeat(0x5A);
    rt.create_account(&account, template, "A".into(), 7, 9).unwrap();
    rt.commit().unwrap();
    World { rt, template, account }
}

fn env() -> Envelope {
    Envelope::new(Address::repeat(0x11), 0, 0, Gas::with(1 << 60), 0)
}

/// Reads the fields of a message, independently of the codec.
struct Reader<'a>(&'a [u8]);

impl<'a> Reader<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }

    fn prefixed(&mut self) -> Option<&'a [u8]> {
        let n = self.take(1)?[0];
        self.take(n as usize)
    }

    fn text(&mut self) -> Option<&'a str> {
        std::str::from_utf8(self.prefixed()?).ok()
    }
}

#[derive(Debug)]
struct CallMsg<'a> {
    target: &'a [u8],
    func: &'a str,
    verifydata: &'a [u8],
    calldata: &'a [u8],
}

fn parse_call(m: &[u8]) -> Option<CallMsg> {
    let mut r = Reader(m);
    r.take(2)?;
    Some(CallMsg { target: r.take(20)?, func: r.text()?, verifydata: r.prefixed()?, calldata: r.prefixed()? })
}

#[derive(Debug)]
struct SpawnMsg<'a> {
    template: &'a [u8],
    name: &'a str,
    ctor: &'a str,
    calldata: &'a [u8],
}

fn parse_spawn(m: &[u8]) -> Option<SpawnMsg> {
    let mut r = Reader(m);
    r.take(2)?;
    Some(SpawnMsg { template: r.take(20)?, name: r.text()?, ctor: r.text()?, calldata: r.prefixed()? })
}

/// What becomes of a transaction.
#[derive(Debug, PartialEq, Clone)]
enum End {
    NoAccount(Vec<u8>),
    NoTemplate(Vec<u8>),
    NoFunc(String),
    NotCtor(String),
    NotAllowed(String),
    BadSignature(String),
    Returned(Vec<u8>),
}

fn end(success: bool, error: &Option<RuntimeError>, ret: &Option<Vec<u8>>) -> Result<End, String> {
    if success {
        if let Some(e) = error {
            return Err(format!("a successful receipt tells of {:?}", e));
        }
        return Ok(End::Returned(ret.clone().ok_or("a successful receipt without returndata")?));
    }
    Ok(match error.as_ref().ok_or("a failing receipt without an error")? {
        RuntimeError::AccountNotFound(a) => End::NoAccount(a.as_slice().to_vec()),
        RuntimeError::TemplateNotFound(a) => End::NoTemplate(a.as_slice().to_vec()),
        RuntimeError::FuncNotFound { func, .. } => End::NoFunc(func.clone()),
        RuntimeError::FuncNotCtor { func, .. } => End::NotCtor(func.clone()),
        RuntimeError::FuncNotAllowed { func, .. } => End::NotAllowed(func.clone()),
        RuntimeError::FuncInvalidSignature { func, .. } => End::BadSignature(func.clone()),
        e => return Err(format!("failed with {:?}", e)),
    })
}

/// The layer, its fingerprint and the accounts.
fn snapshot(w: &mut World) -> (u64, State, Option<(u64, u128, TemplateAddr)>) {
    let (l, s) = w.rt.current_layer();
    (l.0, s, w.rt.get_account(&w.account))
}

fn ended(w: &mut World, before: (u64, State, Option<(u64, u128, TemplateAddr)>), got: &End, want: &End, commits: bool, what: &str) -> Result<(), String> {
    if got != want {
        return Err(format!("{}: {:?}, but should be {:?}", what, got, want));
    }
    let after = snapshot(w);
    if matches!(want, End::Returned(_)) && commits {
        if after.0 != before.0 + 1 {
            return Err(format!("{}: the layer went from {} to {}", what, before.0, after.0));
        }
    } else if after != before {
        return Err(format!("{}: the state changed from {:?} to {:?}", what, before, after));
    }
    if after.2 != before.2 {
        return Err(format!("{}: the account changed", what));
    }
    Ok(())
}

fn check_call(c: &mut Ctx, w: &mut World, m: &[u8]) -> Result<(), String> {
    let want = parse_call(m);
    c.step();
    let got = no_panic(|| w.rt.validate_call(m))?;
    if got.is_ok() != want.is_some() {
        return Err(format!("validate_call says {:?}, but the message reads {:?}", got, want));
    }
    let p = match want {
        Some(p) => p,
        None => {
            c.state(&"malformed call");
            return Ok(());
        }
    };
    let known = p.target == w.account.as_slice();
    // The call itself, unless it would read calldata it wasn't given.
    let run = if !known {
        Some(End::NoAccount(p.target.to_vec()))
    } else {
        match p.func {
            "ctor" | "absent" => Some(End::NotAllowed(p.func.to_string())),
            "svm_alloc" | "svm_verify" => Some(End::BadSignature(p.func.to_string())),
            "none" => Some(End::Returned(vec![])),
            "run" if p.calldata.is_empty() => None,
            "run" => Some(End::Returned(p.calldata.to_vec())),
            f => Some(End::NoFunc(f.to_string())),
        }
    };
    let mut seen = vec![];
    if let Some(e) = run {
        c.step();
        let before = snapshot(w);
        let r = no_panic(|| w.rt.call(&env(), m, &Context::default()))?;
        let got = end(r.success, &r.error, &r.returndata)?;
        ended(w, before, &got, &e, true, "call")?;
        seen.push(format!("{:?}", got));
    }
    let verify = if !known {
        Some(End::NoAccount(p.target.to_vec()))
    } else if p.verifydata.is_empty() {
        None
    } else {
        Some(End::Returned(p.verifydata.to_vec()))
    };
    if let Some(e) = verify {
        c.step();
        let before = snapshot(w);
        let r = no_panic(|| w.rt.verify(&env(), m, &Context::default()))?;
        let got = end(r.success, &r.error, &r.returndata)?;
        ended(w, before, &got, &e, false, "verify")?;
        seen.push(format!("{:?}", got));
    }
    c.state(&seen);
    Ok(())
}

fn check_spawn(c: &mut Ctx, w: &mut World, m: &[u8]) -> Result<(), String> {
    let want = parse_spawn(m);
    c.step();
    let got = no_panic(|| w.rt.validate_spawn(m))?;
    if got.is_ok() != want.is_some() {
        return Err(format!("validate_spawn says {:?}, but the message reads {:?}", got, want));
    }
    let p = match want {
        Some(p) => p,
        None => {
            c.state(&"malformed spawn");
            return Ok(());
        }
    };
    let e = if p.template != w.template.as_slice() {
        End::NoTemplate(p.template.to_vec())
    } else {
        match p.ctor {
            "absent" => End::NoFunc("absent".into()),
            "ctor" if p.calldata.is_empty() => return Ok(()),
            "ctor" => End::Returned(p.calldata.to_vec()),
            f => End::NotCtor(f.to_string()),
        }
    };
    c.step();
    let before = snapshot(w);
    let r = no_panic(|| w.rt.spawn(&env(), m, &Context::default()))?;
    let got = end(r.success, &r.error, &r.returndata)?;
    ended(w, before, &got, &e, true, "spawn")?;
    if r.success {
        let at = compute_account_addr(&SpawnAccount::new(0, &w.template, p.name, p.ctor, vec![]));
        if r.account_addr != Some(at) {
            return Err(format!("the receipt names {:?}", r.account_addr));
        }
        if w.rt.get_account(&at) != Some((0, 0, w.template)) {
            return Err(format!("the account spawned is {:?}", w.rt.get_account(&at)));
        }
    }
    c.state(&format!("{:?}", got));
    Ok(())
}

/// A byte of every kind that matters in a message.
const BYTES: &[u8] = &[0, 1, 2, 3, 4, 0x5A, 0x61, 0x7F, 0x80, 0xC3, 0xED, 0xFF];

fn changes(c: &mut Ctx, what: &str, m: &[u8], check: &mut dyn FnMut(&mut Ctx, &[u8]) -> Result<(), String>) {
    c.case(|| format!("{} {}", what, hex(m)), |c| check(c, m));
    for n in 0..m.len() {
        c.case(|| format!("{}: the first {} bytes of {}", what, n, hex(m)), |c| check(c, &m[..n]));
        let mut longer = m.to_vec();
        longer.insert(n, m[n]);
        c.case(|| format!("{}: byte {} twice of {}", what, n, hex(m)), |c| check(c, &longer));
        let mut shorter = m.to_vec();
        shorter.remove(n);
        c.case(|| format!("{}: without byte {} of {}", what, n, hex(m)), |c| check(c, &shorter));
        for b in 0..=255u8 {
            if b == m[n] {
                continue;
            }
            let mut x = m.to_vec();
            x[n] = b;
            c.case(|| format!("{}: byte {} set to {:02x} of {}", what, n, b, hex(m)), |c| check(c, &x));
        }
    }
    // Two bytes.
    for i in 0..m.len() {
        for j in i + 1..m.len() {
            if !c.thorough() && j - i > 3 && j - i != 20 {
                continue;
            }
            for a in BYTES {
                for b in BYTES {
                    if *a == m[i] || *b == m[j] {
                        continue;
                    }
                    let mut x = m.to_vec();
                    x[i] = *a;
                    x[j] = *b;
                    c.case(|| format!("{}: bytes {} and {} set to {:02x} and {:02x} of {}", what, i, j, a, b, hex(m)), |c| check(c, &x));
                }
            }
        }
    }
}

pub fn v25(c: &mut Ctx) {
    let mut w = world();
    let calls: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![
        ("run", vec![1, 2, 3], vec![9]),
        ("none", vec![], vec![]),
        ("ctor", vec![1], vec![]),
        ("nonE", vec![], vec![4]),
        ("é", vec![], vec![]),
        ("svm_verify", vec![0xAA], vec![0xBB]),
        ("svm_alloc", vec![], vec![]),
        ("absent", vec![], vec![]),
        ("memory", vec![], vec![]),
        ("", vec![], vec![]),
    ];
    for (k, (f, calldata, verifydata)) in calls.iter().enumerate() {
        let tx = Transaction { version: k as u16, target: w.account.clone(), func_name: f.to_string(), calldata: calldata.clone(), verifydata: verifydata.clone() };
        let m = tx.encode_to_vec();
        if k >= 4 && !c.thorough() {
            c.case(|| format!("call of {}", f), |c| check_call(c, &mut w, &m));
            continue;
        }
        changes(c, "call", &m, &mut |c, m| check_call(c, &mut w, m));
    }
    let spawns: Vec<(&str, &str, Vec<u8>)> = vec![
        ("N", "ctor", vec![1, 2, 3]),
        ("", "absent", vec![5]),
        ("éa", "run", vec![]),
        ("", "", vec![]),
        ("N", "ctoR", vec![8]),
    ];
    for (k, (name, ctor, calldata)) in spawns.iter().enumerate() {
        let s = SpawnAccount::new(k as u16, &w.template, name, *ctor, calldata.clone());
        let m = s.encode_to_vec();
        if k >= 3 && !c.thorough() {
            c.case(|| format!("spawn with {}", ctor), |c| check_spawn(c, &mut w, &m));
            continue;
        }
        changes(c, "spawn", &m, &mut |c, m| check_spawn(c, &mut w, m));
    }
    // Names that are nearly one.
    for f in ["run", "ctor", "none", "absent"] {
        let up = f.to_uppercase();
        let mut near: Vec<String> = vec![up, f[1..].into(), f[..f.len() - 1].into(), format!("{}{}", f, f)];
        for x in [" ", "\0", "\n", "\t", "_", ".", "\u{a0}", "\u{feff}", &f[..1]] {
            near.push(format!("{}{}", f, x));
            near.push(format!("{}{}", x, f));
            near.push(format!("{}{}{}", &f[..1], x, &f[1..]));
        }
        for n in near {
            let m = Transaction { version: 0, target: w.account.clone(), func_name: n.clone(), calldata: vec![1], verifydata: vec![2] }.encode_to_vec();
            c.case(|| format!("call of {:?}", n), |c| check_call(c, &mut w, &m));
            let m = SpawnAccount::new(0, &w.template, &n, n.as_str(), vec![3]).encode_to_vec();
            c.case(|| format!("spawn with {:?}", n), |c| check_spawn(c, &mut w, &m));
        }
    }
    // Lengths of the parts, up to the longest.
    for n in [0usize, 1, 2, 31, 32, 127, 128, 254, 255] {
        for d in [0usize, 1, 127, 128, 254, 255] {
            for v in [0usize, 1, 128, 255] {
                let tx = Transaction { version: 0, target: w.account.clone(), func_name: "f".repeat(n), calldata: vec![7; d], verifydata: vec![8; v] };
                let m = tx.encode_to_vec();
                c.case(|| format!("call with lengths {} {} {}", n, v, d), |c| check_call(c, &mut w, &m));
                let tx = Transaction { func_name: "run".into(), ..tx };
                let m = tx.encode_to_vec();
                c.case(|| format!("run with lengths {} {}", v, d), |c| check_call(c, &mut w, &m));
            }
            let s = SpawnAccount::new(0, &w.template, &"n".repeat(n), "ctor", vec![6; d]);
            let m = s.encode_to_vec();
            c.case(|| format!("spawn with lengths {} {}", n, d), |c| check_spawn(c, &mut w, &m));
        }
    }
}
