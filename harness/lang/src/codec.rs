//! V09, V10, V11: the binary format of transactions, receipts and templates.

use std::collections::HashSet;
use std::fmt::Debug;
use std::io::Cursor;

use svm_codec::{template, Codec, ParseError, SectionPreview, SectionsDecoder, SectionsEncoder};
use svm_layout::{FixedLayout, Layout};
use svm_types::*;
use vh_core::{hex, no_panic, product, sequences, Ctx};

use wee_alloc::peak;

/// No group of short messages may need more memory than this to be decoded.
const MAX_MEMORY: usize = 64 << 20;

// ---------------------------------------------------------------- reference encoder

/// The documented format, written down apart from the code.
#[derive(Default)]
pub(crate) struct W(pub(crate) Vec<u8>);

impl W {
    pub(crate) fn raw(mut self, b: &[u8]) -> Self {
        self.0.extend_from_slice(b);
        self
    }
    pub(crate) fn u8(self, n: u8) -> Self {
        self.raw(&[n])
    }
    pub(crate) fn u16(self, n: u16) -> Self {
        self.raw(&[(n >> 8) as u8, n as u8])
    }
    pub(crate) fn u32(self, n: u32) -> Self {
        self.u16((n >> 16) as u16).u16(n as u16)
    }
    pub(crate) fn u64(self, n: u64) -> Self {
        self.u32((n >> 32) as u32).u32(n as u32)
    }
    pub(crate) fn u128(self, n: u128) -> Self {
        self.u64((n >> 64) as u64).u64(n as u64)
    }
    pub(crate) fn gas(self, g: Option<u64>) -> Self {
        self.u64(g.unwrap_or(0))
    }
    pub(crate) fn s(self, s: &str) -> Self {
        assert!(s.len() < 256);
        self.u8(s.len() as u8).raw(s.as_bytes())
    }
    pub(crate) fn blob8(self, b: &[u8]) -> Self {
        assert!(b.len() < 256);
        self.u8(b.len() as u8).raw(b)
    }
    pub(crate) fn blob16(self, b: &[u8]) -> Self {
        assert!(b.len() < 65536);
        self.u16(b.len() as u16).raw(b)
    }
    pub(crate) fn logs(mut self, logs: &[Vec<u8>]) -> Self {
        self = self.u8(logs.len() as u8);
        for l in logs {
            self = self.blob16(l);
        }
        self
    }
}

// ---------------------------------------------------------------- reference parser

/// Tells which byte strings are messages, and where they end.
pub(crate) struct R<'a>(pub(crate) &'a [u8], pub(crate) usize);

pub(crate) type Parse<'a> = Option<&'a [u8]>;

impl<'a> R<'a> {
    pub(crate) fn raw(&mut self, n: usize) -> Parse<'a> {
        let r = self.0.get(self.1..self.1.checked_add(n)?)?;
        self.1 += n;
        Some(r)
    }
    pub(crate) fn num(&mut self, n: usize) -> Option<u64> {
        Some(self.raw(n)?.iter().fold(0u64, |a, b| a << 8 | *b as u64))
    }
    pub(crate) fn s(&mut self) -> Option<()> {
        let n = self.num(1)? as usize;
        std::str::from_utf8(self.raw(n)?).ok().map(|_| ())
    }
    pub(crate) fn blob(&mut self, w: usize) -> Option<()> {
        let n = self.num(w)? as usize;
        self.raw(n).map(|_| ())
    }
    pub(crate) fn logs(&mut self) -> Option<()> {
        let n = self.num(1)?;
        for _ in 0..n {
            self.blob(2)?;
        }
        Some(())
    }
    pub(crate) fn failure(&mut self) -> Option<()> {
        let ty = self.num(1)?;
        self.logs()?;
        match ty {
            0 => (),
            1 | 2 => drop(self.raw(20)?),
            3 | 4 | 5 | 9 => {
                self.raw(40)?;
                self.s()?
            }
            6 | 8 => {
                self.raw(40)?;
                self.s()?;
                self.s()?
            }
            7 => {
                self.raw(20)?;
                self.s()?
            }
            _ => return None,
        }
        Some(())
    }
    pub(crate) fn receipt(&mut self, only: Option<u64>) -> Option<()> {
        let ty = self.num(1)?;
        if ty > 2 || only.map_or(false, |o| o != ty) || self.num(2)? != 0 {
            return None;
        }
        match self.num(1)? {
            0 => return self.failure(),
            1 => (),
            _ => return None,
        }
        match ty {
            0 => drop(self.raw(28)?),
            _ => {
                self.raw(if ty == 1 { 52 } else { 32 })?;
                self.blob(2)?;
                self.raw(8)?;
                let n = self.num(2)? as usize;
                self.raw(20 * n)?;
            }
        }
        self.logs()
    }
    pub(crate) fn layout(&mut self) -> Option<()> {
        if self.num(2)? != 1 {
            return None;
        }
        let n = self.num(2)?;
        if n > 0 {
            if self.num(4)? + n - 1 > u32::MAX as u64 {
                return None;
            }
            self.raw(2 * n as usize)?;
        }
        Some(())
    }
    pub(crate) fn section(&mut self, kind: u64) -> Option<()> {
        match kind {
            1 => {
                (self.num(2)? == 1).then(|| ())?;
                self.raw(8)?;
                (self.num(8)? == 1).then(|| ())?;
                self.raw(4)?;
                self.blob(4)?
            }
            2 => {
                for _ in 0..self.num(2)? {
                    self.layout()?;
                }
            }
            3 => {
                for _ in 0..self.num(1)? {
                    self.s()?;
                }
            }
            6 => {
                self.raw(4)?;
                self.s()?;
                self.s()?
            }
            7 => drop(self.raw(80)?),
            _ => return None,
        }
        Some(())
    }
    pub(crate) fn sections(&mut self) -> Option<Vec<u64>> {
        let mut kinds = vec![];
        for _ in 0..self.num(2)? {
            let kind = self.num(2)?;
            self.raw(4)?;
            self.section(kind)?;
            kinds.push(kind);
        }
        Some(kinds)
    }
}

// ---------------------------------------------------------------- values

pub(crate) fn bytes(pat: u8, n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match pat {
            0 => 0,
            1 => 0xFF,
            _ => (i as u8).wrapping_mul(7).wrapping_add(pat),
        })
        .collect()
}

pub(crate) fn strings() -> Vec<String> {
    let mut v = vec![
        String::new(),
        "a".into(),
        "\0".into(),
        "ctor_1".into(),
        "é".into(),
        "日本".into(),
        "𝄞".into(),
        "\u{10FFFF}".into(),
        "x".repeat(127),
        "x".repeat(128),
        "y".repeat(254),
        "y".repeat(255),
    ];
    v.push(format!("{}é", "z".repeat(253)));
    v.push("é".repeat(127));
    v
}

pub(crate) const U64S: [u64; 10] = [
    0,
    1,
    0xFF,
    0x100,
    0xFFFF_FFFF,
    0x1_0000_0000,
    0x0102_0304_0506_0708,
    i64::MAX as u64,
    i64::MAX as u64 + 1,
    u64::MAX,
];

pub(crate) fn addr(k: usize) -> Address {
    match k {
        0 => Address::zeros(),
        1 => Address::repeat(0xFF),
        _ => Address::new(bytes(k as u8, 20)),
    }
}

pub(crate) fn taddr(k: usize) -> TemplateAddr {
    TemplateAddr::new(addr(k).as_slice())
}

pub(crate) fn state(k: usize) -> State {
    match k {
        0 => State::zeros(),
        1 => State::repeat(0xFF),
        _ => State::new(bytes(k as u8, 32)),
    }
}

fn tx_id(k: usize) -> TransactionId {
    TransactionId::new(state(k).as_slice())
}

pub(crate) fn gas(g: Option<u64>) -> Gas {
    g.map_or_else(Gas::new, Gas::with)
}

// ---------------------------------------------------------------- round trip

/// Encoding gives `want`; decoding that, also with something behind it, gives
/// the value back and stops at its end.
fn round<T>(c: &mut Ctx, v: &T, want: &[u8]) -> Result<(), String>
where
    T: Codec<Error = ParseError> + PartialEq,
{
    round_as(c, v, v, want)
}

fn round_as<T>(c: &mut Ctx, v: &T, expect: &T, want: &[u8]) -> Result<(), String>
where
    T: Codec<Error = ParseError> + PartialEq,
{
    let got = v.encode_to_vec();
    c.step();
    c.state(want);
    if got != want {
        return Err(format!("encoded as {}, the format says {}", cut(&got), cut(want)));
    }
    if let Some(n) = T::fixed_size() {
        if n != got.len() {
            return Err(format!("fixed size {} but {} bytes", n, got.len()));
        }
    }
    for tail in [&[][..], &[0xAA, 0x00], &[0xFF; 70]] {
        let mut b = want.to_vec();
        b.extend_from_slice(tail);
        let mut cur = Cursor::new(&b[..]);
        let back = T::decode(&mut cur).map_err(|e| format!("doesn't decode: {:?}", e))?;
        c.step();
        if back != *expect {
            return Err(format!("decodes to another value: {}", cut(&back.encode_to_vec())));
        }
        if cur.position() as usize != want.len() {
            return Err(format!("decoding read {} of {} bytes", cur.position(), want.len()));
        }
    }
    // Behind other values.
    for lead in [1usize, 259] {
        let mut b = vec![0xC3; lead];
        b.extend_from_slice(want);
        b.extend_from_slice(&[0, 1]);
        let mut cur = Cursor::new(&b[..]);
        cur.set_position(lead as u64);
        let back = T::decode(&mut cur).map_err(|e| format!("doesn't decode behind {} bytes: {:?}", lead, e))?;
        c.step();
        if back != *expect || cur.position() as usize != lead + want.len() {
            return Err(format!("behind {} bytes it decodes to another value, or {} bytes are read: {}", lead, cur.position(), cut(&back.encode_to_vec())));
        }
    }
    // Whatever is cut off is missed.
    let step = (want.len() / 8).max(1);
    for n in (0..want.len()).step_by(step).chain(want.len().saturating_sub(3)..want.len()) {
        c.step();
        if T::decode_bytes(&want[..n]).is_ok() {
            return Err(format!("decodes although cut to {} of {} bytes", n, want.len()));
        }
    }
    Ok(())
}

fn cut(b: &[u8]) -> String {
    if b.len() > 120 {
        format!("{}.. ({} bytes)", hex(&b[..120]), b.len())
    } else {
        hex(b)
    }
}

pub(crate) fn w_tx(version: u16, target: &Address, f: &str, v: &[u8], d: &[u8]) -> Vec<u8> {
    W::default().u16(version).raw(target.as_slice()).s(f).blob8(v).blob8(d).0
}

pub(crate) fn w_spawn(version: u16, t: &TemplateAddr, name: &str, ctor: &str, d: &[u8]) -> Vec<u8> {
    W::default().u16(version).raw(t.as_slice()).s(name).s(ctor).blob8(d).0
}

pub(crate) fn to_logs(l: &[Vec<u8>]) -> Vec<ReceiptLog> {
    l.iter().cloned().map(ReceiptLog::new).collect()
}

/// All kinds of errors, with the given strings; what is expected back, and the blob.
pub(crate) fn errors(a: usize, t: usize, func: &str, msg: &str) -> Vec<(u8, RuntimeError, RuntimeError, Vec<u8>)> {
    let (target, template) = (addr(a), taddr(t));
    let mut n = msg.len().min(255);
    while !msg.is_char_boundary(n) {
        n -= 1;
    }
    let short = msg[..n].to_string();
    let both = || W::default().raw(template.as_slice()).raw(target.as_slice());
    let func = func.to_string();
    let mut v = vec![];
    let same = |v: &mut Vec<_>, k: u8, e: RuntimeError, b: W| v.push((k, e.clone(), e, b.0));
    same(&mut v, 0, RuntimeError::OOG, W::default());
    same(&mut v, 1, RuntimeError::TemplateNotFound(template), W::default().raw(template.as_slice()));
    same(&mut v, 2, RuntimeError::AccountNotFound(target), W::default().raw(target.as_slice()));
    for k in [3, 4, 6, 8] {
        let mk = |msg: &str| {
            let (msg, func) = (msg.to_string(), func.clone());
            match k {
                3 => RuntimeError::CompilationFailed { target, template, msg },
                4 => RuntimeError::InstantiationFailed { target, template, msg },
                6 => RuntimeError::FuncFailed { target, template, func, msg },
                _ => RuntimeError::FuncNotAllowed { target, template, func, msg },
            }
        };
        let b = if k < 5 { both().s(&short) } else { both().s(&func).s(&short) };
        v.push((k, mk(msg), mk(&short), b.0));
    }
    same(&mut v, 5, RuntimeError::FuncNotFound { target, template, func: func.clone() }, both().s(&func));
    same(&mut v, 7, RuntimeError::FuncNotCtor { template, func: func.clone() }, W::default().raw(template.as_slice()).s(&func));
    same(&mut v, 9, RuntimeError::FuncInvalidSignature { target, template, func: func.clone() }, both().s(&func));
    v
}

pub(crate) fn log_sets() -> Vec<Vec<Vec<u8>>> {
    let mut v = vec![vec![]];
    for n in [0, 1, 2, 255, 256, 257, 65535] {
        v.push(vec![bytes(2, n)]);
    }
    v.push(vec![vec![], vec![], vec![]]);
    v.push(vec![b"first".to_vec(), vec![], b"third".to_vec()]);
    v.push(vec![b"third".to_vec(), vec![], b"first".to_vec()]);
    v.push((0..254).map(|i| vec![i as u8]).collect());
    v.push((0..255).map(|i| vec![i as u8; 2]).collect());
    v
}

pub(crate) fn touched_sets() -> Vec<Vec<Address>> {
    vec![
        vec![],
        vec![addr(0)],
        vec![addr(1)],
        vec![addr(2), addr(3)],
        vec![addr(0), addr(1), addr(2)],
        (0..255).map(|i| Address::repeat(i as u8)).collect(),
        (0..256).map(|i| Address::repeat(i as u8)).collect(),
        (0..300u32).map(|i| Address::new(W::default().u32(i).raw(&[9; 16]).0)).collect(),
        (0..65535u32).map(|i| Address::new(W::default().raw(&[7; 16]).u32(i).0)).collect(),
    ]
}

fn w_touched(w: W, t: &[Address]) -> W {
    let mut s: Vec<&[u8]> = t.iter().map(|a| a.as_slice()).collect();
    s.sort();
    let mut w = w.u16(s.len() as u16);
    for a in s {
        w = w.raw(a);
    }
    w
}

pub(crate) fn call_receipt(st: &State, ret: &[u8], g: Option<u64>, t: &[Address], l: &[Vec<u8>]) -> (Receipt, Vec<u8>) {
    let r = CallReceipt {
        version: 0,
        success: true,
        error: None,
        new_state: Some(st.clone()),
        returndata: Some(ret.to_vec()),
        gas_used: gas(g),
        touched_accounts: t.iter().copied().collect(),
        logs: to_logs(l),
    };
    let w = W::default().u8(2).u16(0).u8(1).raw(st.as_slice()).blob16(ret).gas(g);
    (Receipt::Call(r), w_touched(w, t).logs(l).0)
}

pub(crate) fn spawn_receipt(a: &Address, st: &State, ret: &[u8], g: Option<u64>, t: &[Address], l: &[Vec<u8>]) -> (Receipt, Vec<u8>) {
    let r = SpawnReceipt {
        version: 0,
        success: true,
        error: None,
        account_addr: Some(*a),
        init_state: Some(st.clone()),
        returndata: Some(ret.to_vec()),
        gas_used: gas(g),
        touched_accounts: t.iter().copied().collect(),
        logs: to_logs(l),
    };
    let w = W::default().u8(1).u16(0).u8(1).raw(a.as_slice()).raw(st.as_slice()).blob16(ret).gas(g);
    (Receipt::Spawn(r), w_touched(w, t).logs(l).0)
}

pub(crate) fn deploy_receipt(a: &TemplateAddr, g: Option<u64>, l: &[Vec<u8>]) -> (Receipt, Vec<u8>) {
    let mut r = DeployReceipt::new(*a, gas(g));
    r.logs = to_logs(l);
    (Receipt::Deploy(r), W::default().u8(0).u16(0).u8(1).raw(a.as_slice()).gas(g).logs(l).0)
}

pub(crate) fn failed(ty: u8, e: &RuntimeError, l: &[Vec<u8>]) -> Receipt {
    let (e, l) = (e.clone(), to_logs(l));
    match ty {
        0 => Receipt::Deploy(DeployReceipt::from_err(e, l)),
        1 => Receipt::Spawn(SpawnReceipt::from_err(e, l)),
        _ => Receipt::Call(CallReceipt::from_err(e, l)),
    }
}

pub(crate) const GASES: [Option<u64>; 6] = [None, Some(1), Some(255), Some(0x0102_0304_0506_0708), Some(1 << 63), Some(u64::MAX)];

pub fn v09(ctx: &mut Ctx) {
    let strs = strings();
    let lens = ctx.pick(vec![0, 1, 2, 127, 128, 254, 255], (0..=255).step_by(5).collect::<Vec<usize>>());
    let mut datas: Vec<Vec<u8>> = vec![];
    for n in &lens {
        for p in 0..3 {
            datas.push(bytes(p, *n));
        }
    }

    // Transactions
    for version in [0u16, 1, 255, 256, 65535] {
        for a in 0..3 {
            for f in &strs {
                ctx.case(
                    || format!("call v={} a={} f={:?}", version, a, f),
                    |c| {
                        for v in &datas {
                            for d in &datas {
                                let tx = Transaction {
                                    version,
                                    target: addr(a),
                                    func_name: f.clone(),
                                    verifydata: v.clone(),
                                    calldata: d.clone(),
                                };
                                round(c, &tx, &w_tx(version, &addr(a), f, v, d))?;
                            }
                        }
                        Ok(())
                    },
                );
                ctx.case(
                    || format!("spawn v={} a={} n={:?}", version, a, f),
                    |c| {
                        for g in &strs {
                            for d in &datas {
                                let s = SpawnAccount::new(version, &taddr(a), f, g, d.clone());
                                round(c, &s, &w_spawn(version, &taddr(a), f, g, d))?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // Names of every length
    for n in 0..=255usize {
        ctx.case(
            || format!("length {}", n),
            |c| {
                let f: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                let d = bytes(5, 255 - n);
                let tx = Transaction {
                    version: n as u16,
                    target: addr(4),
                    func_name: f.clone(),
                    verifydata: d.clone(),
                    calldata: bytes(6, n),
                };
                round(c, &tx, &w_tx(n as u16, &addr(4), &f, &d, &bytes(6, n)))?;
                let s = SpawnAccount::new(7, &taddr(5), &f, &f, d.clone());
                round(c, &s, &w_spawn(7, &taddr(5), &f, &f, &d))?;
                round(c, &f, &W::default().s(&f).0)
            },
        );
    }

    // Envelopes and contexts
    let nonces: Vec<u128> = U64S
        .iter()
        .map(|n| *n as u128)
        .chain([1u128 << 64, u128::MAX, 0x0102_0304_0506_0708_090A_0B0C_0D0E_0F10, u128::MAX << 64])
        .collect();
    for a in 0..3 {
        for amount in U64S {
            for fee in U64S {
                ctx.case(
                    || format!("envelope a={} amount={} fee={}", a, amount, fee),
                    |c| {
                        for nonce in &nonces {
                            for g in GASES {
                                let e = Envelope::new(addr(a), amount, *nonce, gas(g), fee);
                                let w = W::default().raw(addr(a).as_slice()).u64(amount).u128(*nonce).gas(g).u64(fee);
                                round(c, &e, &w.0)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
        for t in 0..3 {
            for layer in U64S {
                ctx.case(
                    || format!("context a={} t={} layer={}", a, t, layer),
                    |c| {
                        let x = Context::new(tx_id(t), Layer(layer), state(a));
                        round(c, &x, &W::default().raw(tx_id(t).as_slice()).u64(layer).raw(state(a).as_slice()).0)
                    },
                );
            }
        }
    }

    // Receipts
    let logs = log_sets();
    let touched = touched_sets();
    let rets: Vec<Vec<u8>> = [0usize, 1, 2, 255, 256, 65534, 65535].iter().map(|n| bytes(3, *n)).collect();
    for (li, l) in logs.iter().enumerate() {
        for (ti, t) in touched.iter().enumerate() {
            for (ri, r) in rets.iter().enumerate() {
                if t.len() > 1000 && (li > 1 || ri > 1) {
                    continue;
                }
                ctx.case(
                    || format!("receipt logs={} touched={} ret={}", li, ti, ri),
                    |c| {
                        let big = t.len() > 3 || r.len() > 1000 || l.len() > 3 || l.iter().any(|l| l.len() > 1000);
                        for (gi, g) in GASES.iter().copied().enumerate() {
                            for s in 0..3 {
                                if big && (s != ri % 3 || gi != (li + ti) % GASES.len()) {
                                    continue;
                                }
                                let (v, w) = call_receipt(&state(s), r, g, t, l);
                                round(c, &v, &w)?;
                                let (v, w) = spawn_receipt(&addr(s), &state(2 - s), r, g, t, l);
                                round(c, &v, &w)?;
                                let (v, w) = deploy_receipt(&taddr(s), g, l);
                                round(c, &v, &w)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // The order in which accounts were touched doesn't matter.
    sequences(4, 4, &mut |s| {
        let s = s.to_vec();
        ctx.case(
            || format!("touched in order {:?}", s),
            |c| {
                let mut a: Vec<Address> = vec![];
                for i in &s {
                    if !a.contains(&addr(*i)) {
                        a.push(addr(*i));
                    }
                }
                for cap in [0, 1, 100] {
                    let mut set = HashSet::with_capacity(cap);
                    set.extend(a.iter().copied());
                    round(c, &set, &w_touched(W::default(), &a).0)?;
                }
                Ok(())
            },
        );
    });
    // Errors
    let mut msgs = strs.clone();
    for n in [252usize, 253, 254, 255, 256, 300, 1000] {
        for ch in ["m", "é", "日", "𝄞"] {
            for lead in 0..4 {
                msgs.push(format!("{}{}", "-".repeat(lead), ch.repeat((n + ch.len() - 1) / ch.len())));
            }
        }
    }
    for (mi, msg) in msgs.iter().enumerate() {
        for (fi, f) in strs.iter().enumerate() {
            if mi >= strs.len() && fi > 3 && fi != 11 {
                continue;
            }
            ctx.case(
                || format!("error f={} msg={}", fi, mi),
                |c| {
                    for (li, l) in logs.iter().enumerate() {
                        if li > 8 && mi > 4 {
                            continue;
                        }
                        for (k, e, back, blob) in errors(mi % 3, 2 + fi % 2, f, msg) {
                            let w = W::default().u8(k).logs(l).raw(&blob).0;
                            let (v, b) = (RuntimeFailure::new(e.clone(), to_logs(l)), RuntimeFailure::new(back.clone(), to_logs(l)));
                            if li < 8 {
                                round_as(c, &v, &b, &w)?;
                            }
                            for ty in 0..3 {
                                let w = W::default().u8(ty).u16(0).u8(0).raw(&w).0;
                                round_as(c, &failed(ty, &e, l), &failed(ty, &back, l), &w)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

// ---------------------------------------------------------------- V10

struct Ty {
    name: &'static str,
    seeds: Vec<Vec<u8>>,
    /// Decodes; the bytes read and the encoding of what came out.
    decode: fn(&[u8], usize) -> Option<(usize, Vec<u8>)>,
    /// Whether the reference takes it, and up to where.
    accepts: fn(&[u8]) -> Option<usize>,
    /// Whether there is one encoding only of each value.
    canonical: bool,
}

fn dec<T: Codec>(b: &[u8], at: usize) -> Option<(usize, Vec<u8>)> {
    let mut c = Cursor::new(b);
    c.set_position(at as u64);
    let v = T::decode(&mut c).ok()?;
    Some((c.position() as usize - at, v.encode_to_vec()))
}

fn dec_template(b: &[u8], at: usize) -> Option<(usize, Vec<u8>)> {
    let mut c = Cursor::new(b);
    c.set_position(at as u64);
    let v = template::decode(&mut c, None).ok()?;
    Some((c.position() as usize - at, template::encode(&v)))
}

macro_rules! accept {
    ($r:ident => $e:expr) => {
        |b: &[u8]| {
            let mut $r = R(b, 0);
            $e?;
            Some($r.1)
        }
    };
}

pub(crate) fn receipt_seeds() -> Vec<Vec<u8>> {
    let l = vec![b"ab".to_vec(), vec![]];
    let t = vec![addr(2), addr(1)];
    let mut v = vec![
        call_receipt(&state(2), &[1, 2], Some(9), &t, &l).1,
        call_receipt(&state(0), &[], None, &[], &[]).1,
        spawn_receipt(&addr(3), &state(2), &[7], Some(u64::MAX), &t, &l).1,
        deploy_receipt(&taddr(2), Some(5), &l).1,
    ];
    for ty in 0..3 {
        for (_, e, _, _) in errors(2, 3, "f", "é!") {
            v.push(failed(ty, &e, &l[..ty as usize % 2 + 1]).encode_to_vec());
        }
    }
    v
}

fn failure_seeds() -> Vec<Vec<u8>> {
    errors(2, 3, "fn", "日!").iter().map(|(_, e, _, _)| RuntimeFailure::new(e.clone(), to_logs(&[b"x".to_vec()])).encode_to_vec()).collect()
}

fn layout(first: u32, sizes: &[u32]) -> Layout {
    Layout::Fixed(FixedLayout::from_byte_sizes(first, sizes))
}

fn code(n: usize) -> CodeSection {
    CodeSection::new(CodeKind::Wasm, bytes(4, n), 0x0102_0304_0506_0708, GasMode::Fixed, 0xA1B2_C3D4)
}

fn data(layouts: Vec<Layout>) -> DataSection {
    let mut d = DataSection::default();
    for l in layouts {
        d.add_layout(l);
    }
    d
}

fn header() -> HeaderSection {
    HeaderSection::new(0x0102_0304, "My Template".into(), "desc é".into())
}

fn deploy() -> DeploySection {
    DeploySection::new(tx_id(2), Layer(0x0A0B_0C0D_0E0F_1011), addr(3), taddr(4))
}

fn small_template() -> Template {
    Template::new(code(5), data(vec![layout(3, &[1, 300]), layout(0, &[])]), CtorsSection::new(vec!["init".into(), "".into()]))
}

fn types() -> Vec<Ty> {
    let tx = |f: &str, v: &[u8], d: &[u8]| w_tx(0x0102, &addr(2), f, v, d);
    vec![
        Ty {
            name: "call",
            seeds: vec![tx("run é", &[1, 2, 3], &[4]), tx("", &[], &[]), tx("f", &[], &bytes(3, 40))],
            decode: dec::<Transaction>,
            accepts: accept!(r => { r.raw(22)?; r.s()?; r.blob(1)?; r.blob(1) }),
            canonical: true,
        },
        Ty {
            name: "spawn",
            seeds: vec![w_spawn(0, &taddr(2), "acc", "日", &[1, 2]), w_spawn(65535, &taddr(0), "", "", &[])],
            decode: dec::<SpawnAccount>,
            accepts: accept!(r => { r.raw(22)?; r.s()?; r.s()?; r.blob(1) }),
            canonical: true,
        },
        Ty {
            name: "envelope",
            seeds: vec![Envelope::new(addr(2), 77, 88, Gas::with(99), 3).encode_to_vec()],
            decode: dec::<Envelope>,
            accepts: accept!(r => r.raw(60)),
            canonical: true,
        },
        Ty {
            name: "context",
            seeds: vec![Context::new(tx_id(2), Layer(9), state(3)).encode_to_vec()],
            decode: dec::<Context>,
            accepts: accept!(r => r.raw(72)),
            canonical: true,
        },
        Ty {
            name: "receipt",
            seeds: receipt_seeds(),
            decode: dec::<Receipt>,
            accepts: accept!(r => r.receipt(None)),
            canonical: false,
        },
        Ty {
            name: "deploy receipt",
            seeds: receipt_seeds().into_iter().filter(|b| b[0] == 0).collect(),
            decode: dec::<DeployReceipt>,
            accepts: accept!(r => r.receipt(Some(0))),
            canonical: true,
        },
        Ty {
            name: "spawn receipt",
            seeds: receipt_seeds().into_iter().filter(|b| b[0] == 1).collect(),
            decode: dec::<SpawnReceipt>,
            accepts: accept!(r => r.receipt(Some(1))),
            canonical: false,
        },
        Ty {
            name: "call receipt",
            seeds: receipt_seeds().into_iter().filter(|b| b[0] == 2).collect(),
            decode: dec::<CallReceipt>,
            accepts: accept!(r => r.receipt(Some(2))),
            canonical: false,
        },
        Ty {
            name: "failure",
            seeds: failure_seeds(),
            decode: dec::<RuntimeFailure>,
            accepts: accept!(r => r.failure()),
            canonical: true,
        },
        Ty {
            name: "code section",
            seeds: vec![code(3).encode_to_vec()],
            decode: dec::<CodeSection>,
            accepts: accept!(r => r.section(1)),
            canonical: true,
        },
        Ty {
            name: "data section",
            seeds: vec![
                data(vec![]).encode_to_vec(),
                data(vec![layout(0, &[1, 2, 3]), layout(7, &[])]).encode_to_vec(),
                data(vec![layout(u32::MAX - 1, &[8, 9])]).encode_to_vec(),
                data(vec![layout(u32::MAX, &[9])]).encode_to_vec(),
            ],
            decode: dec::<DataSection>,
            accepts: accept!(r => r.section(2)),
            canonical: true,
        },
        Ty {
            name: "ctors section",
            seeds: vec![CtorsSection::new(vec!["a".into(), "".into(), "é".into()]).encode_to_vec(), CtorsSection::default().encode_to_vec()],
            decode: dec::<CtorsSection>,
            accepts: accept!(r => r.section(3)),
            canonical: true,
        },
        Ty {
            name: "header section",
            seeds: vec![header().encode_to_vec()],
            decode: dec::<HeaderSection>,
            accepts: accept!(r => r.section(6)),
            canonical: true,
        },
        Ty {
            name: "deploy section",
            seeds: vec![deploy().encode_to_vec()],
            decode: dec::<DeploySection>,
            accepts: accept!(r => r.section(7)),
            canonical: true,
        },
        Ty {
            name: "preview",
            seeds: vec![SectionPreview::new(SectionKind::Data, 77).encode_to_vec()],
            decode: dec::<SectionPreview>,
            accepts: accept!(r => { let k = r.num(2)?; r.raw(4)?; (1..=7).contains(&k).then(|| ()) }),
            canonical: true,
        },
        Ty {
            name: "template",
            seeds: vec![
                template::encode(&small_template()),
                template::encode(&small_template().with_header(Some(header()))),
                template::encode(&small_template().with_deploy(Some(deploy()))),
            ],
            decode: dec_template,
            accepts: accept!(r => { let k = r.sections()?; (k.contains(&1) && k.contains(&2) && k.contains(&3)).then(|| ()) }),
            canonical: false,
        },
        Ty {
            name: "touched accounts",
            seeds: vec![w_touched(W::default(), &[addr(2)]).0],
            decode: dec::<HashSet<Address>>,
            accepts: accept!(r => { let n = r.num(2)? as usize; r.raw(20 * n) }),
            canonical: false,
        },
        Ty {
            name: "logs",
            seeds: vec![W::default().logs(&[b"abc".to_vec(), vec![]]).0],
            decode: dec::<Vec<ReceiptLog>>,
            accepts: accept!(r => r.logs()),
            canonical: true,
        },
        Ty {
            name: "string",
            seeds: strings().iter().filter(|s| s.len() < 10).map(|s| s.encode_to_vec()).collect(),
            decode: dec::<String>,
            accepts: accept!(r => r.s()),
            canonical: true,
        },
        Ty {
            name: "bool",
            seeds: vec![vec![0], vec![1]],
            decode: dec::<bool>,
            accepts: accept!(r => (r.num(1)? < 2).then(|| ())),
            canonical: true,
        },
    ]
}

fn judge(c: &mut Ctx, t: &Ty, b: &[u8]) -> Result<(), String> {
    c.step();
    let (got, mem) = peak(|| no_panic(|| (t.decode)(b, 0)));
    let got = got.map_err(|e| format!("{}: {}", cut(b), e))?;
    if mem > MAX_MEMORY {
        return Err(format!("{}: {} MB of memory were needed", cut(b), mem >> 20));
    }
    // The same, behind other values.
    let mut behind = vec![0x3C; 259];
    behind.extend_from_slice(b);
    let other = no_panic(|| (t.decode)(&behind, 259)).map_err(|e| format!("{}: behind other values: {}", cut(b), e))?;
    if other != got {
        return Err(format!("{}: behind other values, {:?} instead of {:?} is decoded", cut(b), other.map(|x| x.0), got.map(|x| x.0)));
    }
    match (got, (t.accepts)(b)) {
        (None, None) => Ok(()),
        (Some((n, again)), Some(m)) => {
            c.state(&(t.name, &again[..]));
            if n != m {
                return Err(format!("{}: {} bytes were read, the message has {}", cut(b), n, m));
            }
            if t.canonical && again != b[..n] {
                return Err(format!("{}: decodes to {}", cut(b), cut(&again)));
            }
            let back = (t.decode)(&again, 0).ok_or_else(|| format!("{}: decodes to {}, which doesn't decode", cut(b), cut(&again)))?;
            if back != (again.len(), again.clone()) {
                return Err(format!("{}: decodes to {}, and this to {}", cut(b), cut(&again), cut(&back.1)));
            }
            Ok(())
        }
        (Some((n, again)), None) => Err(format!("{}: isn't a {}, but {} bytes decode to {}", cut(b), t.name, n, cut(&again))),
        (None, Some(_)) => Err(format!("{}: is a {}, but doesn't decode", cut(b), t.name)),
    }
}

/// A case, whose messages are judged one by one.
fn bounded(ctx: &mut Ctx, key: impl FnOnce() -> String, f: impl FnOnce(&mut Ctx) -> Result<(), String>) {
    ctx.case(key, f)
}

pub fn v10(ctx: &mut Ctx) {
    for (ti, t) in types().iter().enumerate() {
        // Short strings
        let max = ctx.pick(2usize, 3);
        for len in 0..=max {
            let outer = if len == 0 { 1 } else { 256u32 };
            for first in 0..outer {
                bounded(
                    ctx,
                    || format!("{}: all of {} bytes, first {}", t.name, len, first),
                    |c| {
                        let mut b = vec![first as u8; len];
                        let rest = if len < 2 { 1u64 } else { 1u64 << (8 * (len - 1)) };
                        for r in 0..rest {
                            for k in 1..len {
                                b[k] = (r >> (8 * (k - 1))) as u8;
                            }
                            judge(c, t, &b)?;
                        }
                        Ok(())
                    },
                );
            }
        }
        for (si, s) in t.seeds.iter().enumerate() {
            bounded(
                    ctx,
                || format!("{}: seed {} cut, extended and duplicated", t.name, si),
                |c| {
                    if (t.decode)(s, 0).is_none() {
                        return Err(format!("the message {} itself doesn't decode", cut(s)));
                    }
                    for n in 0..=s.len() {
                        judge(c, t, &s[..n])?;
                        let mut b = s[..n].to_vec();
                        b.extend_from_slice(s);
                        judge(c, t, &b)?;
                        for fill in [0u8, 1, 0x7F, 0x80, 0xFF] {
                            let mut b = s[..n].to_vec();
                            b.resize(n + 300, fill);
                            judge(c, t, &b)?;
                        }
                    }
                    Ok(())
                },
            );
            for pos in 0..s.len() {
                bounded(
                    ctx,
                    || format!("{}: seed {} changed at {}", t.name, si, pos),
                    |c| {
                        for v in 0..=255u8 {
                            let mut b = s.clone();
                            b[pos] = v;
                            judge(c, t, &b)?;
                            // one more byte
                            let mut b = s.clone();
                            b.insert(pos, v);
                            judge(c, t, &b)?;
                        }
                        let mut b = s.clone();
                        b.remove(pos);
                        judge(c, t, &b)?;
                        // extreme values of the number that might stand here
                        for w in [2usize, 4, 8] {
                            for v in [0u64, 1, 0x7F, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF, u64::MAX] {
                                if pos + w <= s.len() {
                                    let mut b = s.clone();
                                    b[pos..pos + w].copy_from_slice(&v.to_be_bytes()[8 - w..]);
                                    judge(c, t, &b)?;
                                    // with data behind it
                                    b.resize(b.len() + 70000, 0x61);
                                    if v & 0xFF == 0xFF {
                                        judge(c, t, &b)?;
                                    }
                                }
                            }
                        }
                        Ok(())
                    },
                );
                // Two bytes changed
                let pairs = ctx.thorough();
                if pairs || si == 0 {
                    bounded(
                    ctx,
                        || format!("{}: seed {} changed at {} and another", t.name, si, pos),
                        |c| {
                            let vals: &[u8] = if pairs { &[0, 1, 2, 3, 4, 5, 6, 7, 0x7F, 0x80, 0xC3, 0xFF] } else { &[0, 1, 2, 0x80, 0xFF] };
                            for other in pos + 1..s.len() {
                                for v in vals {
                                    for u in vals {
                                        let mut b = s.clone();
                                        b[pos] = *v;
                                        b[other] = *u;
                                        judge(c, t, &b)?;
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
        let _ = ti;
    }
    // Sections in any order and number, each cut at any place
    let parts: Vec<(u16, Vec<u8>)> = vec![
        (1, code(2).encode_to_vec()),
        (2, data(vec![layout(0, &[2])]).encode_to_vec()),
        (3, CtorsSection::new(vec!["c".into()]).encode_to_vec()),
        (6, header().encode_to_vec()),
        (4, vec![]),
        (5, vec![1]),
        (0, vec![]),
    ];
    let tt = types().into_iter().find(|t| t.name == "template").unwrap();
    let max = ctx.pick(4, 5);
    for len in 0..=max {
        sequences(parts.len(), len, &mut |seq| {
            let seq = seq.to_vec();
            bounded(
                    ctx,
                || format!("sections {:?}", seq),
                |c| {
                    for count in [seq.len(), seq.len() + 1, seq.len().saturating_sub(1)] {
                        let mut w = W::default().u16(count as u16);
                        for p in &seq {
                            let (k, b) = &parts[*p];
                            w = w.u16(*k).u32(b.len() as u32).raw(b);
                        }
                        judge(c, &tt, &w.0)?;
                    }
                    Ok(())
                },
            );
        });
    }
}

// ---------------------------------------------------------------- V11

fn w_code(s: &CodeSection) -> Vec<u8> {
    W::default().u16(1).u64(s.flags()).u64(1).u32(s.svm_version()).u32(s.code().len() as u32).raw(s.code()).0
}

fn w_layout(first: u32, sizes: &[u32]) -> Vec<u8> {
    let mut w = W::default().u16(1).u16(sizes.len() as u16);
    if !sizes.is_empty() {
        w = w.u32(first);
        for s in sizes {
            w = w.u16(*s as u16);
        }
    }
    w.0
}

fn w_data(l: &[(u32, Vec<u32>)]) -> Vec<u8> {
    let mut w = W::default().u16(l.len() as u16);
    for (f, s) in l {
        w = w.raw(&w_layout(*f, s));
    }
    w.0
}

fn w_ctors(c: &[String]) -> Vec<u8> {
    let mut w = W::default().u8(c.len() as u8);
    for s in c {
        w = w.s(s);
    }
    w.0
}

fn w_header(v: u32, n: &str, d: &str) -> Vec<u8> {
    W::default().u32(v).s(n).s(d).0
}

fn w_deploy(t: &TransactionId, l: u64, a: &Address, ta: &TemplateAddr) -> Vec<u8> {
    W::default().raw(t.as_slice()).u64(l).raw(a.as_slice()).raw(ta.as_slice()).0
}

fn w_sections(s: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut w = W::default().u16(s.len() as u16);
    for (k, b) in s {
        w = w.u16(*k).u32(b.len() as u32).raw(b);
    }
    w.0
}

const KINDS: [(SectionKind, u16); 5] =
    [(SectionKind::Code, 1), (SectionKind::Data, 2), (SectionKind::Ctors, 3), (SectionKind::Header, 6), (SectionKind::Deploy, 7)];

fn decode_one(kind: u16, b: &[u8]) -> Result<Section, ParseError> {
    Ok(match kind {
        1 => CodeSection::decode_bytes(b)?.into(),
        2 => DataSection::decode_bytes(b)?.into(),
        3 => CtorsSection::decode_bytes(b)?.into(),
        6 => HeaderSection::decode_bytes(b)?.into(),
        _ => DeploySection::decode_bytes(b)?.into(),
    })
}

/// A template, given as its sections with their encodings, in this order.
fn check_template(c: &mut Ctx, parts: &[(Section, u16, Vec<u8>)]) -> Result<(), String> {
    let want = w_sections(&parts.iter().map(|(_, k, b)| (*k, b.clone())).collect::<Vec<_>>());
    c.state(&want);
    c.step();
    let mut sections = Sections::with_capacity(parts.len());
    for (s, ..) in parts {
        sections.insert(s.clone());
    }
    let mut e = SectionsEncoder::with_capacity(parts.len());
    e.encode(&sections);
    let got = e.finish();
    if got != want {
        return Err(format!("encoded as {}, the format says {}", cut(&got), cut(&want)));
    }
    let full = parts.iter().filter(|p| p.1 < 4).count() == 3;
    let t = Template::from_sections(sections.clone());
    if template::encode(&t) != want || sections.encode_to_vec() != want {
        return Err("the ways to encode differ".into());
    }
    if Sections::decode_bytes(&want).map_err(|e| format!("doesn't decode: {:?}", e))? != sections {
        return Err("the sections decode to others".into());
    }
    // Every choice of sections
    for mask in 0..32usize {
        c.step();
        let interest: HashSet<SectionKind> = KINDS.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| k.0).collect();
        let mut cur = Cursor::new(&want[..]);
        let r = template::decode(&mut cur, Some(interest.clone()));
        if full && mask & 7 == 7 {
            let r = r.map_err(|e| format!("interests {:?}: {:?}", interest, e))?;
            if cur.position() as usize != want.len() {
                return Err(format!("interests {:?}: {} of {} bytes read", interest, cur.position(), want.len()));
            }
            for (i, (k, code)) in KINDS.iter().enumerate() {
                let expect = parts.iter().find(|p| p.1 == *code && mask >> i & 1 == 1).map(|p| &p.0);
                if r.try_get(*k) != expect {
                    return Err(format!("interests {:?}: section {:?} differs", interest, k));
                }
            }
        } else if r.is_ok() {
            return Err(format!("interests {:?}: a template without code, data or constructors", interest));
        }
        // One by one
        let mut cur = Cursor::new(&want[..]);
        let mut d = SectionsDecoder::new(&mut cur).map_err(|e| format!("{:?}", e))?;
        if d.section_count() != parts.len() {
            return Err("number of sections".into());
        }
        for (s, code, b) in parts {
            if d.is_eof() {
                return Err("ends too early".into());
            }
            let p = d.next_preview().map_err(|e| format!("preview: {:?}", e))?;
            if p.kind() != s.kind() || p.byte_size() as usize != b.len() {
                return Err(format!("preview {:?} of a section {} of {} bytes", p, code, b.len()));
            }
            let i = KINDS.iter().position(|k| k.1 == *code).unwrap();
            if mask >> i & 1 == 1 {
                if d.decode_section().map_err(|e| format!("section: {:?}", e))? != *s {
                    return Err(format!("section {} differs, sections {:b} decoded", code, mask));
                }
            } else {
                d.skip_section().map_err(|e| format!("skip: {:?}", e))?;
            }
        }
        if !d.is_eof() || d.next_preview().is_ok() {
            return Err("doesn't end".into());
        }
        if cur.position() as usize != want.len() {
            return Err("not all was read".into());
        }
    }
    for (s, code, b) in parts {
        match decode_one(*code, b) {
            Ok(x) if x == *s => (),
            other => return Err(format!("section {} alone decodes to {:?}", code, other.map(|x| x.kind()))),
        }
    }
    for lead in [1usize, 300] {
        c.step();
        let mut b = vec![0x3C; lead];
        b.extend_from_slice(&want);
        b.extend_from_slice(&[0, 0, 1]);
        let mut cur = Cursor::new(&b[..]);
        cur.set_position(lead as u64);
        match (full, template::decode(&mut cur, None)) {
            (true, Ok(x)) if x == t && cur.position() as usize == lead + want.len() => (),
            (false, Err(_)) => (),
            (_, r) => return Err(format!("behind {} bytes: complete: {}, decodes: {}, {} bytes read", lead, full, r.is_ok(), cur.position())),
        }
    }
    let r = no_panic(|| template::decode(&mut Cursor::new(&want[..]), None))?;
    match (full, r) {
        (true, Ok(x)) if x == t => Ok(()),
        (false, Err(_)) => Ok(()),
        (_, r) => Err(format!("complete: {}, decodes: {}", full, r.is_ok())),
    }
}

type Parts = Vec<(Section, u16, Vec<u8>)>;

fn p_code(n: usize, flags: u64, version: u32) -> (Section, u16, Vec<u8>) {
    let s = CodeSection::new(CodeKind::Wasm, bytes(4, n), flags, GasMode::Fixed, version);
    let w = w_code(&s);
    (s.into(), 1, w)
}

fn p_data(l: &[(u32, Vec<u32>)]) -> (Section, u16, Vec<u8>) {
    (data(l.iter().map(|(f, s)| layout(*f, s)).collect()).into(), 2, w_data(l))
}

fn p_ctors(c: &[String]) -> (Section, u16, Vec<u8>) {
    (CtorsSection::new(c.to_vec()).into(), 3, w_ctors(c))
}

fn p_header(v: u32, n: &str, d: &str) -> (Section, u16, Vec<u8>) {
    (HeaderSection::new(v, n.into(), d.into()).into(), 6, w_header(v, n, d))
}

fn p_deploy(t: usize, l: u64, a: usize, ta: usize) -> (Section, u16, Vec<u8>) {
    (DeploySection::new(tx_id(t), Layer(l), addr(a), taddr(ta)).into(), 7, w_deploy(&tx_id(t), l, &addr(a), &taddr(ta)))
}

fn same_or_refused<T>(v: &T) -> Result<(), String>
where
    T: Codec<Error = ParseError> + PartialEq + Debug,
{
    match no_panic(|| v.encode_to_vec()) {
        Err(_) => Ok(()),
        Ok(b) => match T::decode_bytes(&b) {
            Ok(x) if x == *v => Ok(()),
            Ok(_) => Err("is encoded, but decodes to another".into()),
            Err(e) => Err(format!("is encoded, but doesn't decode: {:?}", e)),
        },
    }
}

pub fn v11(ctx: &mut Ctx) {
    let layouts: Vec<Vec<(u32, Vec<u32>)>> = vec![
        vec![],
        vec![(0, vec![])],
        vec![(0, vec![1])],
        vec![(5, vec![0, 65535, 256])],
        vec![(u32::MAX, vec![7])],
        vec![(u32::MAX - 2, vec![1, 2, 3])],
        vec![(0, vec![1, 2]), (2, vec![3])],
        vec![(9, vec![]), (1, vec![4, 4]), (0, vec![])],
        vec![(0, vec![1; 255])],
        vec![(1, vec![2; 256])],
        vec![(0x0102_0304, (0..300).collect())],
        vec![(0, vec![3; 65534])],
        vec![(1, vec![3; 65535])],
        (0..300).map(|i| (i, vec![i])).collect(),
    ];
    let ctors: Vec<Vec<String>> = vec![
        vec![],
        vec!["".into()],
        vec!["init".into()],
        vec!["a".into(), "a".into()],
        strings(),
        (0..254).map(|i| format!("c{}", i)).collect(),
        (0..255).map(|i| format!("c{}", i)).collect(),
    ];
    let codes: Vec<(usize, u64, u32)> = vec![
        (0, 0, 0),
        (1, 1, 1),
        (255, u64::MAX, u32::MAX),
        (256, 0x0102_0304_0506_0708, 0x0102_0304),
        (65535, 1 << 32, 1 << 16),
        (65536, 1 << 63, 1 << 31),
        (70000, 1, 1),
    ];
    for (ci, c0) in codes.iter().enumerate() {
        for (li, l) in layouts.iter().enumerate() {
            for (ki, k) in ctors.iter().enumerate() {
                if !ctx.thorough() && ci > 3 && li > 3 {
                    continue;
                }
                if l.iter().any(|x| x.1.len() > 60000) && (ci > 1 || ki > 1) {
                    continue;
                }
                ctx.case(
                    || format!("template code={} data={} ctors={}", ci, li, ki),
                    |c| {
                        let base: Parts = vec![p_code(c0.0, c0.1, c0.2), p_data(l), p_ctors(k)];
                        let h = p_header(li as u32, "n", &"d".repeat(255));
                        let d = p_deploy(2, ci as u64, 3, 4);
                        check_template(c, &base)?;
                        let mut p = base.clone();
                        p.push(h.clone());
                        check_template(c, &p)?;
                        p.push(d.clone());
                        check_template(c, &p)?;
                        let mut p = base.clone();
                        p.push(d);
                        check_template(c, &p)
                    },
                );
            }
        }
    }
    // Every order and subset of the sections
    let all: Parts = vec![p_code(3, 1, 2), p_data(&[(4, vec![1, 2])]), p_ctors(&["i".into()]), p_header(5, "é", ""), p_deploy(2, 7, 3, 4)];
    for len in 0..=5 {
        sequences(5, len, &mut |s| {
            let mut u = s.to_vec();
            u.sort_unstable();
            u.dedup();
            if u.len() == s.len() {
                let s = s.to_vec();
                ctx.case(
                    || format!("order {:?}", s),
                    |c| check_template(c, &s.iter().map(|i| all[*i].clone()).collect::<Vec<_>>()),
                );
            }
        });
    }
    // Headers and deployments
    for (ni, n) in strings().iter().enumerate() {
        for (di, d) in strings().iter().enumerate() {
            ctx.case(
                || format!("header {} {}", ni, di),
                |c| {
                    for v in [0, 1, 0x0102_0304, u32::MAX] {
                        let h = HeaderSection::new(v, n.clone(), d.clone());
                        round(c, &h, &w_header(v, n, d))?;
                    }
                    Ok(())
                },
            );
        }
    }
    product(&[3, U64S.len(), 3, 3], &mut |ix| {
        let ix = ix.to_vec();
        ctx.case(
            || format!("deploy {:?}", ix),
            |c| {
                let (s, _, w) = p_deploy(ix[0], U64S[ix[1]], ix[2], ix[3]);
                round(c, s.as_deploy(), &w)
            },
        );
    });
    // Layouts
    let sizes = [0u32, 1, 2, 255, 256, 257, 32768, 65535];
    let max = ctx.pick(3, 4);
    for len in 0..=max {
        sequences(sizes.len(), len, &mut |s| {
            let v: Vec<u32> = s.iter().map(|i| sizes[*i]).collect();
            ctx.case(
                || format!("layout {:?}", v),
                |c| {
                    for first in [0u32, 1, 255, 65536, u32::MAX - 3] {
                        let l = layout(first, &v);
                        round(c, &l, &w_layout(first, &v))?;
                        // What the variables come out as
                        let back = Layout::decode_bytes(&w_layout(first, &v)).map_err(|e| format!("{:?}", e))?;
                        let mut offset = 0;
                        let f = back.as_fixed();
                        if f.len() != v.len() || f.try_first() != v.first().map(|_| first) {
                            return Err("number of variables or the first one".into());
                        }
                        for (i, var) in f.iter().enumerate() {
                            if (var.id, var.offset, var.byte_size) != (first + i as u32, offset, v[i]) {
                                return Err(format!("variable {} is {:?}", i, var));
                            }
                            offset += v[i];
                        }
                    }
                    Ok(())
                },
            );
        });
    }
    // What doesn't fit is refused when encoding.
    for n in [65535usize, 65536, 65537, 131072] {
        ctx.case(|| format!("{} variables", n), |_| same_or_refused(&layout(0, &vec![1; n])));
        ctx.case(|| format!("{} layouts", n), |_| same_or_refused(&data(vec![layout(0, &[1]); n])));
        ctx.case(|| format!("a variable of {} bytes", n), |_| same_or_refused(&layout(3, &[1, n as u32, 2])));
    }
    for n in [255usize, 256, 257, 512, 65536] {
        ctx.case(|| format!("{} constructors", n), |_| same_or_refused(&CtorsSection::new(vec!["c".into(); n])));
        ctx.case(|| format!("a constructor of {} bytes", n), |_| same_or_refused(&CtorsSection::new(vec!["c".repeat(n)])));
        ctx.case(|| format!("a name of {} bytes", n), |_| same_or_refused(&HeaderSection::new(1, "c".repeat(n), "d".into())));
        ctx.case(|| format!("a description of {} bytes", n), |_| same_or_refused(&HeaderSection::new(1, "c".into(), "d".repeat(n))));
    }
}
