//! The host functions that take places in the template's memory, with every
//! place and length around the borders of the memory's pages (part of V20).

use svm_codec::Codec;
use svm_types::*;
use vh_core::{hex, no_panic, Ctx};

use crate::tpl::Chain;

const PAGES: usize = 3;
const END: u64 = PAGES as u64 * 65536;
/// Where the input is put.
const INPUT: usize = 150_000;

fn pattern() -> Vec<u8> {
    (0..END as usize).map(|i| (i * 31 + i / 251 * 7 + (i >> 16) * 97 + 1) as u8).collect()
}

fn module() -> Vec<u8> {
    let data: String = pattern().iter().map(|b| format!("\\{:02x}", b)).collect();
    let arg = |i: usize| format!("(i32.load offset={} (call $off))", 4 * i);
    wat::parse_str(format!(
        r#"(module
 (import "svm" "svm_calldata_offset" (func $off (result i32)))
 (import "svm" "svm_store160" (func $store (param i32 i32)))
 (import "svm" "svm_load160" (func $load (param i32 i32)))
 (import "svm" "svm_transfer" (func $xfer (param i32 i32 i64)))
 (import "svm" "svm_log" (func $log (param i32 i32)))
 (import "svm" "svm_set_returndata" (func $ret (param i32 i32)))
 (memory (export "memory") {pages})
 (data (i32.const 0) "{data}")
 (func (export "ret") (call $ret {a} {b}))
 (func (export "ret_twice") (call $ret {a} {b}) (call $ret {c} {d}))
 (func (export "log") (call $log {a} {b}))
 (func (export "log_twice") (call $log {a} {b}) (call $log {c} {d}))
 (func (export "store") (call $store {a} (i32.const 1)))
 (func (export "load") (call $load (i32.const 1) {a}) (call $ret {b} {c}))
 (func (export "xfer") (call $xfer {a} {b} (i64.const 7)))
 (func $step (param $p i32) (local $op i32) (local $a i32) (local $l i32)
  (local.set $op (i32.load (local.get $p)))
  (local.set $a (i32.load offset=4 (local.get $p)))
  (local.set $l (i32.load offset=8 (local.get $p)))
  (if (i32.eq (local.get $op) (i32.const 1)) (then (call $ret (local.get $a) (local.get $l))))
  (if (i32.eq (local.get $op) (i32.const 2)) (then (call $log (local.get $a) (local.get $l))))
  (if (i32.eq (local.get $op) (i32.const 3)) (then (i32.store8 (local.get $a) (local.get $l))))
  (if (i32.eq (local.get $op) (i32.const 4)) (then (call $store (local.get $a) (i32.const 1))))
  (if (i32.eq (local.get $op) (i32.const 5)) (then (call $load (i32.const 1) (local.get $a)))))
 (func (export "steps")
  (call $step (call $off))
  (call $step (i32.add (call $off) (i32.const 12)))
  (call $step (i32.add (call $off) (i32.const 24)))
  (call $step (i32.add (call $off) (i32.const 36))))
 (func (export "logs") (local $n i32)
  (local.set $n {a})
  (block (loop
   (br_if 1 (i32.eqz (local.get $n)))
   (call $log (local.get $n) (i32.const 1))
   (local.set $n (i32.sub (local.get $n) (i32.const 1)))
   (br 0))))
 (func (export "initialize"))
 (func (export "svm_alloc") (param i32) (result i32) (i32.const {input}))
 (func (export "svm_verify") (result i32) (i32.const 0)))"#,
        pages = PAGES,
        data = data,
        input = INPUT,
        a = arg(0),
        b = arg(1),
        c = arg(2),
        d = arg(3),
    ))
    .unwrap()
}

struct World {
    chain: Chain,
    mem: Vec<u8>,
}

/// What a call has to give; `None`: it has to fail.
type Want = Option<(Option<Vec<u8>>, Vec<Vec<u8>>)>;

impl World {
    fn new(code: &[u8]) -> World {
        World { chain: Chain::with_template(code.to_vec(), &[8, 20, 8]), mem: pattern() }
    }

    /// The memory once the input is there.
    fn with_input(&self, args: &[u64]) -> (Vec<u8>, Vec<u8>) {
        let input: Vec<u8> = args.iter().flat_map(|a| (*a as u32).to_le_bytes()).collect();
        let mut mem = self.mem.clone();
        mem[INPUT..INPUT + input.len()].copy_from_slice(&input);
        (mem, input)
    }

    fn run(&mut self, f: &str, args: &[u64], want: impl Fn(&[u8]) -> Want) -> Result<bool, String> {
        let (mem, input) = self.with_input(args);
        let want = want(&mem);
        let tx = self.chain.tx(f, &input);
        let what = format!("{}{:?}", f, args);
        let (rt, env, ctx) = (&mut self.chain.rt, &self.chain.env, &self.chain.ctx);
        let r = no_panic(|| rt.call(env, &tx, ctx));
        match (r, want) {
            (Ok(r), Some((ret, logs))) if r.success => {
                let got: Vec<Vec<u8>> = r.logs.iter().map(|l| l.as_bytes().to_vec()).collect();
                if got != logs {
                    let show = |l: &[Vec<u8>]| l.iter().map(|l| format!("{} bytes {}", l.len(), hex(&l[..l.len().min(30)]))).collect::<Vec<_>>();
                    return Err(format!("{} logged {:?} instead of {:?}", what, show(&got), show(&logs)));
                }
                if r.returndata.clone().unwrap_or_default() != ret.clone().unwrap_or_default() {
                    let show = |d: Option<Vec<u8>>| d.map(|d| format!("{} bytes {}", d.len(), hex(&d[..d.len().min(30)])));
                    return Err(format!("{} returned {:?} instead of {:?}", what, show(r.returndata), show(ret)));
                }
                // There is a way to tell it.
                let bytes = no_panic(|| r.encode_to_vec()).map_err(|e| format!("{}: {}", what, e))?;
                match CallReceipt::decode_bytes(&bytes) {
                    Ok(b) if b.success && b.logs == r.logs && b.returndata.clone().unwrap_or_default() == ret.unwrap_or_default() => {}
                    other => return Err(format!("{}: the receipt is decoded as {:?}", what, other.map(|b| (b.success, b.logs.len(), b.returndata.map(|r| r.len()))))),
                }
                Ok(true)
            }
            (Ok(r), Some(_)) => Err(format!("{} failed: {:?}", what, r.error)),
            (Err(e), Some(_)) => Err(format!("{} failed: {}", what, e)),
            (Ok(r), None) if r.success => Err(format!("{} succeeded", what)),
            _ => {
                self.chain.unchanged(None).map_err(|e| format!("{}: {}", what, e))?;
                Ok(false)
            }
        }
    }
}

fn slice(mem: &[u8], at: u64, len: u64) -> Option<Vec<u8>> {
    if at + len > END {
        return None;
    }
    Some(mem[at as usize..(at + len) as usize].to_vec())
}

pub fn cases(c: &mut Ctx) {
    let code = &module();
    let mut at: Vec<u64> = vec![0, 1, 20, 255, 256, 1000, INPUT as u64 - 1, INPUT as u64, INPUT as u64 + 15];
    for p in [65536u64, 131072, END] {
        at.extend([p - 256, p - 21, p - 20, p - 19, p - 2, p - 1, p, p + 1, p + 20]);
    }
    at.extend([END + 65536, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 21, (1 << 32) - 20, (1 << 32) - 2, (1 << 32) - 1]);
    let lens = [1u64, 2, 19, 20, 21, 127, 128, 255, 256, 257, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 131072, END - 1, END, END + 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1];
    let told = |len: u64| len < 65536;
    for a in &at {
        let a = *a;
        c.case(|| format!("memory: returned from {}", a), |c| {
            let mut w = World::new(code);
            for l in lens {
                c.step();
                c.state(&("ret", a, l));
                w.run("ret", &[a, l], |m| slice(m, a, l).filter(|_| told(l)).map(|d| (Some(d), vec![])))?;
                // The last one counts, but every one has to be one that can be told.
                w.run("ret_twice", &[a, l, 70000, 5], |m| if told(l) { Some((slice(m, 70000, 5), vec![])) } else { None })?;
            }
            Ok(())
        });
        c.case(|| format!("memory: logged from {}", a), |c| {
            let mut w = World::new(code);
            for l in [0].iter().chain(&lens) {
                let l = *l;
                if l == 0 && a >= END {
                    continue;
                }
                c.step();
                c.state(&("log", a, l));
                w.run("log", &[a, l], |m| slice(m, a, l).filter(|_| told(l)).map(|d| (None, vec![d])))?;
                w.run("log_twice", &[70000, 5, a, l], |m| slice(m, a, l).filter(|_| told(l)).map(|d| (None, vec![slice(m, 70000, 5).unwrap(), d])))?;
            }
            Ok(())
        });
        c.case(|| format!("memory: variable stored from and loaded to {}", a), |c| {
            let mut w = World::new(code);
            c.step();
            c.state(&("store", a));
            let inside = a + 20 <= END;
            w.run("store", &[a], |_| if inside { Some((None, vec![])) } else { None })?;
            if inside {
                let (mem, _) = w.with_input(&[a]);
                w.chain.unchanged(Some(1))?;
                if Some(&w.chain.vars[1]) != slice(&mem, a, 20).as_ref() {
                    return Err(format!("stored {} from {}", hex(&w.chain.vars[1]), a));
                }
            }
            // Another value, and everything around it.
            w.run("store", &[333], |_| Some((None, vec![])))?;
            w.chain.unchanged(Some(1))?;
            let var = w.chain.vars[1].clone();
            let from = a.saturating_sub(30).min(END - 90);
            if a < INPUT as u64 && INPUT as u64 - a < 20 || a >= INPUT as u64 && a < INPUT as u64 + 20 {
                return Ok(()); // overwrites what is to be returned
            }
            w.run("load", &[a, from, 90], |m| {
                if !inside {
                    return None;
                }
                let mut m = m.to_vec();
                m[a as usize..a as usize + 20].copy_from_slice(&var);
                Some((slice(&m, from, 90), vec![]))
            })?;
            w.chain.unchanged(None)
        });
    }
    let places = [0u64, 1, 65516, 65517, 65536, 65537, 131071, END - 21, END - 20, END - 19, END - 1, END, END + 1, 1 << 31, (1 << 32) - 20, (1 << 32) - 1];
    for a in places {
        for b in places {
            c.case(|| format!("memory: transfer from {} to {}", a, b), |c| {
                c.step();
                c.state(&("xfer", a, b));
                let mut w = World::new(code);
                let (src, dst) = (slice(&w.mem, a, 20), slice(&w.mem, b, 20));
                let template = w.chain.tokio.block_on(w.chain.account(&w.chain.me)).unwrap();
                let mut accounts: Vec<(Address, u64)> = vec![];
                for x in [&src, &dst].iter().filter_map(|x| x.as_ref()) {
                    let mut bytes = [0; 20];
                    bytes.copy_from_slice(x);
                    let address = Address::from(bytes);
                    if accounts.iter().all(|(y, _)| *y != address) {
                        w.chain.rt.create_account(&address, template.clone(), "x".into(), 100, 0).unwrap();
                        accounts.push((address, 100));
                    }
                }
                let ok = src.is_some() && dst.is_some() && crate::chain::any_debit();
                w.run("xfer", &[a, b], |_| if ok { Some((None, vec![])) } else { None })?;
                if ok && a != b {
                    accounts[0].1 -= 7;
                    accounts[1].1 += 7;
                }
                for (address, balance) in accounts {
                    let got = w.chain.balance(&address);
                    if got != balance {
                        return Err(format!("{:?} has {} instead of {}", address, got, balance));
                    }
                }
                Ok(())
            });
        }
    }
    for n in (0..4).chain(250..260).chain([511, 512, 1000]) {
        c.case(|| format!("memory: {} logs", n), |c| {
            c.step();
            c.state(&("logs", n));
            let mut w = World::new(code);
            w.run("logs", &[n], |m| if n < 256 { Some((None, (1..=n).rev().map(|i| slice(m, i, 1).unwrap()).collect())) } else { None })?;
            Ok(())
        });
    }
    sequences(c, code);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    Ret(u64, u64),
    Log(u64, u64),
    Write(u64, u8),
    Store(u64),
    Load(u64),
}

/// Every sequence of uses of memory that is near, so that they overlap, end and
/// start at the same places.
fn sequences(c: &mut Ctx, code: &[u8]) {
    use Step::*;
    let near = [(100, 4), (100, 9), (104, 5), (103, 1), (65530, 6), (65530, 12)];
    let mut steps: Vec<Step> = near.iter().map(|(a, l)| Ret(*a, *l)).collect();
    steps.extend(near.iter().map(|(a, l)| Log(*a, *l)));
    steps.extend([Log(100, 0), Write(103, 250), Write(65536, 0), Store(99), Store(65520), Load(95), Load(65525)]);
    let depth = if c.thorough() { 4 } else { 3 };
    for a in &steps {
        for b in &steps {
            c.case(|| format!("memory: {:?}, {:?} and all that follows", a, b), |c| {
                let mut w = World::new(code);
                let mut todo: Vec<Vec<Step>> = vec![vec![*a, *b]];
                while let Some(seq) = todo.pop() {
                    c.step();
                    c.state(&seq);
                    w.steps(&seq)?;
                    if seq.len() < depth {
                        todo.extend(steps.iter().map(|s| [&seq[..], &[*s][..]].concat()));
                    }
                }
                Ok(())
            });
        }
    }
}

impl World {
    fn steps(&mut self, seq: &[Step]) -> Result<(), String> {
        use Step::*;
        let mut args = vec![];
        for s in seq {
            args.extend(match *s {
                Ret(a, l) => [1, a, l],
                Log(a, l) => [2, a, l],
                Write(a, b) => [3, a, b as u64],
                Store(a) => [4, a, 0],
                Load(a) => [5, a, 0],
            });
        }
        args.resize(12, 0);
        let before = self.chain.vars[1].clone();
        let (mut mem, _) = self.with_input(&args);
        let (mut logs, mut ret, mut var) = (vec![], None, before.clone());
        for s in seq {
            // What is returned is told by where it is: it isn't said when it is read.
            let changes = |from: u64, to: u64| matches!(ret, Some((a, l)) if a < to && from < a + l);
            match *s {
                Ret(a, l) => ret = Some((a, l)),
                Log(a, l) => logs.push(slice(&mem, a, l).unwrap()),
                Write(a, b) => {
                    if changes(a, a + 1) {
                        return Ok(());
                    }
                    mem[a as usize] = b
                }
                Store(a) => var = slice(&mem, a, 20).unwrap(),
                Load(a) => {
                    if changes(a, a + 20) {
                        return Ok(());
                    }
                    mem[a as usize..a as usize + 20].copy_from_slice(&var)
                }
            }
        }
        let ret = ret.map(|(a, l)| slice(&mem, a, l).unwrap());
        self.run("steps", &args, |_| Some((ret.clone(), logs.clone())))?;
        if var == before {
            return self.chain.unchanged(None);
        }
        self.chain.unchanged(Some(1))?;
        if self.chain.vars[1] != var {
            return Err(format!("{:?}: the variable is {}, not {}", seq, hex(&self.chain.vars[1]), hex(&var)));
        }
        Ok(())
    }
}
