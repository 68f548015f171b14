//! V19: the library that templates are written with.

use std::collections::BTreeMap;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use svm_sdk_host_mock::MockHost;
use svm_sdk_std::{DecDigit, HexDigit, Option as SdkOption, String as Str, StringBuilder, ToString as ToStr, Vec as SdkVec};
use svm_sdk_storage as storage;
use svm_sdk_storage_mock::MockStorage;
use svm_sdk_types::value::{Composite, Primitive, Value};
use svm_sdk_types::{Address, Amount, LayerId};
use vh_core::{no_panic, product, sequences, Ctx};

use crate::abi::{self, numbers, Val};

pub fn v19(ctx: &mut Ctx) {
    vectors(ctx);
    strings(ctx);
    texts(ctx);
    amounts(ctx);
    conversions(ctx);
    variables(ctx);
    doubles(ctx);
}

/// Runs `f`, which must stop the template if there is no result.
fn want<T: PartialEq + Debug>(what: impl FnOnce() -> String, f: impl FnOnce() -> T, result: Option<T>) -> Result<(), String> {
    let got = no_panic(f).ok();
    if got != result {
        return Err(format!("{}: {}, should be {}", what(), show(&got), show(&result)));
    }
    Ok(())
}

fn show<T: Debug>(r: &Option<T>) -> String {
    r.as_ref().map_or("an abort".into(), |r| format!("{:?}", r))
}

// ---------------------------------------------------------------- vectors

fn same<T: PartialEq + Debug>(v: &SdkVec<T>, m: &[T], cap: usize) -> Result<(), String> {
    let by_iter: Vec<&T> = v.iter().collect();
    if v.as_slice() != m || v.len() != m.len() || v.is_empty() != m.is_empty() || v.capacity() != cap || by_iter != m.iter().collect::<Vec<_>>() || &v[..] != m {
        return Err(format!("it holds {:?} ({} of {}), should be {:?}", v.as_slice(), v.len(), v.capacity(), m));
    }
    Ok(())
}

/// Operations on a vector: push, pop, clear, overwrite the first, the last.
fn vec_run<T: Copy + PartialEq + Debug + 'static>(c: &mut Ctx, cap: usize, ops: &[usize], item: fn(usize) -> T) -> Result<(), String> {
    let mut v: SdkVec<T> = SdkVec::with_capacity(cap);
    // Its neighbours in memory.
    let mut w: SdkVec<T> = SdkVec::with_capacity(2);
    w.push(item(90));
    w.push(item(91));
    let mut m: Vec<T> = vec![];
    let ctx = |e: String| format!("capacity {}, {:?}: {}", cap, ops, e);
    for (i, op) in ops.iter().enumerate() {
        c.step();
        let x = item(i + 1);
        let ok = match op {
            0 => {
                let r = no_panic(|| v.push(x)).is_ok();
                if m.len() < cap {
                    m.push(x);
                    r
                } else {
                    !r
                }
            }
            1 => no_panic(|| v.pop()).ok() == m.pop(),
            2 => {
                v.clear();
                m.clear();
                true
            }
            _ => {
                let k = if *op == 3 { 0 } else { m.len().saturating_sub(1) };
                if let Some(y) = v.as_mut().get_mut(k) {
                    *y = x;
                }
                if let Some(y) = m.get_mut(k) {
                    *y = x;
                }
                true
            }
        };
        if !ok {
            return Err(ctx(format!("operation {} went wrong", i)));
        }
        same(&v, &m, cap).map_err(ctx)?;
        if w.as_slice() != [item(90), item(91)] {
            return Err(ctx("another vector changed".into()));
        }
    }
    c.state(&(cap, m.len(), ops));
    let mut all = v.into_iter();
    for x in &m {
        if all.next() != Some(*x) {
            return Err(ctx("into_iter gives something else".into()));
        }
    }
    if all.next().is_some() {
        return Err(ctx("into_iter gives too much".into()));
    }
    let mut v: SdkVec<T> = SdkVec::with_capacity(cap);
    m.iter().for_each(|x| v.push(*x));
    if v.leak() != &m[..] {
        return Err(ctx("leak gives something else".into()));
    }
    Ok(())
}

fn vectors(ctx: &mut Ctx) {
    let depth = ctx.pick(7, 8);
    for cap in 0..7 {
        for first in 0..5 {
            for second in 0..5 {
                ctx.case(
                    || format!("vector of {}, {} {}", cap, first, second),
                    |c| {
                        let mut bad = None;
                        sequences(5, depth - 2, &mut |s| {
                            if bad.is_none() {
                                let ops = [&[first, second], s].concat();
                                bad = vec_run::<u8>(c, cap, &ops, |i| (i * 2) as u8)
                                    .and_then(|_| vec_run::<u64>(c, cap, &ops, |i| 0x0102_0304_0506_0700 + i as u64))
                                    .and_then(|_| vec_run::<(u8, u32)>(c, cap, &ops, |i| (i as u8, !(i as u32))))
                                    .err();
                            }
                        });
                        bad.map_or(Ok(()), Err)
                    },
                );
            }
        }
    }
    // Filled, emptied in part and filled again, beyond the capacity.
    for cap in 0..ctx.pick(24, 60) {
        ctx.case(
            || format!("vector of {} filled and emptied", cap),
            |c| {
                for k in 0..=cap {
                    for j in 0..=k {
                        let ops: Vec<usize> = [vec![0; k], vec![1; k - j], vec![0; cap - j + 1], vec![1; cap + 1], vec![0]].concat();
                        vec_run::<u8>(c, cap, &ops, |i| (i * 2) as u8)?;
                        vec_run::<u64>(c, cap, &ops, |i| 0x0102_0304_0506_0700 + i as u64)?;
                    }
                }
                Ok(())
            },
        );
    }
    ctx.case(
        || "long vectors".into(),
        |c| {
            for n in [0usize, 1, 7, 8, 9, 255, 256, 257, 1000] {
                c.step();
                let mut a: SdkVec<u8> = SdkVec::with_capacity(n);
                let mut b: SdkVec<u32> = SdkVec::with_capacity(n);
                for i in 0..n {
                    a.push(i as u8);
                    b.push(!(i as u32));
                }
                same(&a, &(0..n).map(|i| i as u8).collect::<Vec<_>>(), n)?;
                same(&b, &(0..n).map(|i| !(i as u32)).collect::<Vec<_>>(), n)?;
                want(|| format!("push beyond {}", n), || a.push(1), None)?;
                let raw = unsafe { SdkVec::from_raw_parts(b.as_slice().as_ptr(), n) };
                same(&raw, b.as_slice(), n)?;
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- strings

fn sdk_str(b: &[u8]) -> Str {
    let mut v = SdkVec::with_capacity(b.len());
    b.iter().for_each(|x| v.push(*x));
    unsafe { Str::new_unchecked(v) }
}

fn bytes_of(s: &Str) -> Vec<u8> {
    let b = s.as_bytes();
    assert!(b.is_empty() || s.as_ptr() == b.as_ptr());
    b.to_vec()
}

fn strings(ctx: &mut Ctx) {
    ctx.case(
        || "single bytes".into(),
        |c| {
            for b in 0..=255u8 {
                c.step();
                want(|| format!("byte {}", b), || bytes_of(&Str::from_byte(b)), (b < 128).then(|| vec![b]))?;
                if b < 10 {
                    want(|| format!("digit {}", b), || bytes_of(&DecDigit(b).to_string()), Some(format!("{}", b).into()))?;
                }
                if b < 16 {
                    want(|| format!("hex digit {}", b), || bytes_of(&HexDigit(b).to_string()), Some(format!("{:X}", b).into()))?;
                }
            }
            Ok(())
        },
    );
    ctx.case(
        || "short strings".into(),
        |c| {
            for n in 0..=12usize {
                let plain: Vec<u8> = (0..n).map(|i| b'a' + i as u8).collect();
                c.state(&plain);
                want(|| format!("{} bytes", n), || bytes_of(&Str::new_short(&plain)), (n <= 8).then(|| plain.clone()))?;
                want(|| format!("{} bytes, unchecked", n), || bytes_of(&sdk_str(&plain)), Some(plain.clone()))?;
                for at in 0..n {
                    for b in [0x00, 0x7F, 0x80, 0xC3, 0xFF] {
                        c.step();
                        let mut s = plain.clone();
                        s[at] = b;
                        let ok = n <= 8 && b < 128;
                        want(|| format!("{:?}", s), || bytes_of(&Str::new_short(&s)), ok.then(|| s.clone()))?;
                        want(|| format!("{:?}, unchecked", s), || bytes_of(&sdk_str(&s)), Some(s.clone()))?;
                    }
                }
            }
            Ok(())
        },
    );
    // What is pushed into a builder comes out in a row.
    const LENS: [usize; 6] = [0, 1, 7, 8, 9, 20];
    for cap in [0usize, 1, 7, 8, 9, 16, 17, 40, 60] {
        ctx.case(
            || format!("builder of {}", cap),
            |c| {
                let mut bad = None;
                for n in 0..=3 {
                    product(&vec![LENS.len(); n], &mut |s| {
                        if bad.is_some() {
                            return;
                        }
                        c.step();
                        let parts: Vec<Vec<u8>> = s.iter().enumerate().map(|(i, k)| (0..LENS[*k]).map(|j| b'A' + (i * 20 + j) as u8 % 60).collect()).collect();
                        let all = parts.concat();
                        c.state(&(cap, &all));
                        let f = || {
                            let mut b = StringBuilder::with_capacity(cap);
                            parts.iter().for_each(|p| b.push_str(&sdk_str(p)));
                            bytes_of(&b.build())
                        };
                        bad = want(|| format!("capacity {}, lengths {:?}", cap, s), f, (all.len() <= cap).then(|| all.clone())).err();
                    });
                }
                bad.map_or(Ok(()), Err)
            },
        );
    }
    ctx.case(
        || "long strings".into(),
        |c| {
            for n in 200..=300usize {
                c.step();
                let s: Vec<u8> = (0..n).map(|i| b'0' + (i % 70) as u8).collect();
                let f = || {
                    let mut b = StringBuilder::with_capacity(n + 1);
                    b.push_str(&Str::from_byte(b'<'));
                    b.push_str(&sdk_str(&s));
                    bytes_of(&b.build())
                };
                // Longer ones can't be pushed in one piece.
                want(|| format!("{} bytes", n), f, (n < 256).then(|| [b"<", &s[..]].concat()))?;
            }
            for at in [0usize, 8, 100] {
                for b in [0x7F, 0x80, 0xFF] {
                    let mut s = vec![b'x'; 120];
                    s[at] = b;
                    let f = || {
                        let mut w = StringBuilder::with_capacity(120);
                        w.push_str(&sdk_str(&s));
                        bytes_of(&w.build())
                    };
                    want(|| format!("byte {} at {}", b, at), f, (b < 128).then(|| s.clone()))?;
                }
            }
            Ok(())
        },
    );
}

fn text<T: ToStr>(what: &'static str, v: T, result: String) -> Result<(), String> {
    let r = result.clone();
    want(|| format!("{} {} as text", what, r), || bytes_of(&v.to_string()), Some(result.into_bytes()))
}

fn texts(ctx: &mut Ctx) {
    for hi in 0..=255u16 {
        ctx.case(
            || format!("small numbers {}", hi),
            |c| {
                text("u8", hi as u8, format!("{}", hi as u8))?;
                text("i8", hi as u8 as i8, format!("{}", hi as u8 as i8))?;
                for lo in 0..=255u16 {
                    c.steps(2);
                    let n = hi << 8 | lo;
                    text("u16", n, format!("{}", n))?;
                    text("i16", n as i16, format!("{}", n as i16))?;
                }
                c.state(&hi);
                Ok(())
            },
        );
    }
    let mut nums = numbers(8);
    let mut p: u64 = 1;
    for _ in 0..20 {
        for d in 0..12u64 {
            for e in 0..3u64 {
                nums.push(p.wrapping_mul(d).wrapping_add(e).wrapping_sub(1));
            }
        }
        p = p.wrapping_mul(10);
    }
    nums.sort_unstable();
    nums.dedup();
    for (k, chunk) in nums.chunks(100).enumerate() {
        ctx.case(
            || format!("numbers {}", k),
            |c| {
                for n in chunk.iter().copied() {
                    c.steps(6);
                    c.state(&n);
                    text("u32", n as u32, format!("{}", n as u32))?;
                    text("i32", n as i32, format!("{}", n as i32))?;
                    text("u64", n, format!("{}", n))?;
                    text("i64", n as i64, format!("{}", n as i64))?;
                    text("amount", Amount(n), format!("{} coins", n))?;
                    text("layer", LayerId(n), format!("[Layer {}]", n))?;
                }
                Ok(())
            },
        );
    }
    ctx.case(
        || "addresses".into(),
        |c| {
            let up = |a: &[u8; 20]| a.iter().map(|b| format!("{:02X}", b)).collect::<String>();
            for b in 0..=255u8 {
                for at in 0..20 {
                    c.step();
                    let mut a = abi::addr(5);
                    a[at] = b;
                    c.state(&a);
                    text("address", Address::from(a), format!("0x{}", up(&a)))?;
                    let (x, y) = (Address::from(a), Address::from(a));
                    let h = |a: &Address| {
                        let mut h = DefaultHasher::new();
                        a.hash(&mut h);
                        h.finish()
                    };
                    if x != y || h(&x) != h(&y) || x.clone() != y || x.as_slice() != a {
                        return Err(format!("two copies of the address {} differ", up(&a)));
                    }
                    let mut o = a;
                    o[(at + 7) % 20] ^= 1;
                    if x == Address::from(o) {
                        return Err(format!("the addresses {} and {} are the same", up(&a), up(&o)));
                    }
                }
                if Address::repeat(b).as_slice() != [b; 20] {
                    return Err(format!("repeat {}", b));
                }
            }
            for n in 0..40usize {
                let mut v = SdkVec::with_capacity(n);
                (0..n).for_each(|i| v.push(i as u8));
                let r: Vec<u8> = (0..n as u8).collect();
                want(|| format!("an address of {} bytes", n), || Address::from(v).as_slice().to_vec(), (n == 20).then(|| r.clone()))?;
                let s: &'static [u8] = Box::leak(r.clone().into_boxed_slice());
                want(|| format!("an address of {} bytes", n), || Address::from(s).as_slice().to_vec(), (n == 20).then(|| r))?;
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- amounts

fn amounts(ctx: &mut Ctx) {
    let mut ns = vec![0u64, 1, 2, 3, 7, 10, 0xFF, 0x100];
    for bit in [8u32, 16, 31, 32, 33, 62, 63] {
        ns.extend([(1u64 << bit) - 1, 1 << bit, (1 << bit) + 1]);
    }
    ns.extend([u64::MAX, u64::MAX - 1, u64::MAX / 3, u64::MAX / 2, 0x0102_0304_0506_0708]);
    for (k, a) in ns.iter().copied().enumerate() {
        ctx.case(
            || format!("amounts {}", k),
            |c| {
                for b in ns.iter().copied() {
                    c.steps(12);
                    c.state(&(a, b));
                    let results = [a.checked_add(b), a.checked_sub(b), a.checked_mul(b)];
                    for (op, r) in results.iter().enumerate() {
                        for form in 0..4 {
                            let f = || {
                                let (x, y) = (Amount(a), Amount(b));
                                let mut z = x;
                                match (op, form) {
                                    (0, 0) => z = x + y,
                                    (0, 1) => z = x + b,
                                    (0, 2) => z += y,
                                    (0, _) => z += b,
                                    (1, 0) => z = x - y,
                                    (1, 1) => z = x - b,
                                    (1, 2) => z -= y,
                                    (1, _) => z -= b,
                                    (_, 0) => z = x * y,
                                    (_, 1) => z = x * b,
                                    (_, 2) => z *= y,
                                    _ => z *= b,
                                }
                                z.0
                            };
                            want(|| format!("{} {} {}, form {}", a, ["+", "-", "*"][op], b, form), f, *r)?;
                        }
                    }
                    let (x, y) = (Amount(a), Amount(b));
                    if (x < y, x <= y, x == y, x > y, x >= y) != (a < b, a <= b, a == b, a > b, a >= b) {
                        return Err(format!("{} and {} compare in another way", a, b));
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- conversions

fn conversions(ctx: &mut Ctx) {
    let mut vals = vec![Val::None, Val::Unit];
    vals.extend(abi::some_values());
    // A value is taken as its own type alone.
    macro_rules! prims {
        ($($name:ident: $t:ty),*) => {
            $(
            ctx.case(
                || format!("values as {}", stringify!($name)),
                |c| {
                    for v in &vals {
                        c.step();
                        c.state(&(stringify!($name), v));
                        let own = matches!(abi::sdk(v), Value::Primitive(Primitive::$name(_)));
                        let none = *v == Val::None;
                        let back = |x: $t| abi::val(&Value::from(x));
                        want(|| format!("{:?} as {}", v, stringify!($name)), || back(<$t>::from(abi::sdk(v))), own.then(|| v.clone()))?;
                        let opt = || match SdkOption::<$t>::from(abi::sdk(v)) {
                            SdkOption::None => None,
                            SdkOption::Some(x) => Some(back(x)),
                        };
                        want(|| format!("{:?} as an optional {}", v, stringify!($name)), opt, if none { Some(None) } else { own.then(|| Some(v.clone())) })?;
                        if own {
                            let some = SdkOption::Some(<$t>::from(abi::sdk(v)));
                            want(|| "an option as a value".into(), || abi::val(&Value::from(some)), Some(v.clone()))?;
                        }
                    }
                    let none: SdkOption<$t> = SdkOption::None;
                    want(|| "none as a value".into(), || abi::val(&Value::from(none)), Some(Val::None))?;
                    // Arrays keep their order, and have as many items as said.
                    let own: Vec<&Val> = vals.iter().filter(|v| matches!(abi::sdk(v), Value::Primitive(Primitive::$name(_)))).collect();
                    for n in 0..=11usize {
                        let items: Vec<Val> = (0..n).map(|i| own[i % own.len()].clone()).collect();
                        let arr = Val::Arr(items.clone());
                        macro_rules! len {
                            ($k:literal) => {
                                let f = || {
                                    let a = <[$t; $k]>::from(abi::sdk(&arr));
                                    a.into_iter().map(|x: $t| abi::val(&Value::from(x))).collect::<Vec<_>>()
                                };
                                want(|| format!("{} items as {} of {}", n, $k, stringify!($name)), f, (n == $k).then(|| items.clone()))?;
                                c.step();
                            };
                        }
                        len!(1); len!(2); len!(3); len!(4); len!(5); len!(6); len!(7); len!(8); len!(9); len!(10);
                    }
                    want(|| "a value as an array".into(), || <[$t; 1]>::from(abi::sdk(own[0])).len(), None)?;
                    let mut v = SdkVec::with_capacity(1);
                    v.push(Value::none());
                    want(|| "no item as an item".into(), || <[$t; 1]>::from(Value::Composite(Composite::Vec(v))).len(), None)?;
                    Ok(())
                },
            );
            )*
        };
    }
    prims!(Bool: bool, Address: Address, Amount: Amount, I8: i8, U8: u8, I16: i16, U16: u16,
           I32: i32, U32: u32, I64: i64, U64: u64);
}

// ---------------------------------------------------------------- variables

thread_local! {
    static VARS: RefCell<BTreeMap<u32, Vec<u8>>> = RefCell::new(BTreeMap::new());
}

struct Mem;

impl Mem {
    fn num(id: u32) -> u64 {
        VARS.with(|v| v.borrow().get(&id).map_or(0, |b| b.iter().fold(0, |a, x| a << 8 | *x as u64)))
    }
    fn put(id: u32, b: Vec<u8>) {
        VARS.with(|v| drop(v.borrow_mut().insert(id, b)))
    }
    fn take() -> BTreeMap<u32, Vec<u8>> {
        VARS.with(|v| std::mem::take(&mut *v.borrow_mut()))
    }
}

impl storage::Storage for Mem {
    fn get32(id: u32) -> u32 {
        Mem::num(id) as u32
    }
    fn get64(id: u32) -> u64 {
        Mem::num(id)
    }
    fn set32(id: u32, v: u32) {
        Mem::put(id, v.to_be_bytes().to_vec())
    }
    fn set64(id: u32, v: u64) {
        Mem::put(id, v.to_be_bytes().to_vec())
    }
    fn store160(id: u32, at: usize) {
        Mem::put(id, unsafe { std::slice::from_raw_parts(at as *const u8, 20) }.to_vec())
    }
    fn load160(id: u32, at: usize) {
        VARS.with(|v| {
            let m = v.borrow();
            let b = m.get(&id).cloned().unwrap_or_else(|| vec![0; 20]);
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), at as *mut u8, 20) }
        })
    }
}

fn variables(ctx: &mut Ctx) {
    use storage::*;
    let nums: Vec<u64> = vec![0, 1, 0xFF, 0x0102_0304, 0xFFFF_FFFF, 1 << 32, 0x0102_0304_0506_0708, 1 << 63, u64::MAX];
    ctx.case(
        || "variables".into(),
        |c| {
            for id in [0u32, 1, 255, 256, 65535, 65536, u32::MAX] {
                for n in nums.iter().copied() {
                    for kind in 0..5 {
                        c.step();
                        c.state(&(id, n, kind));
                        Mem::take();
                        let a = abi::addr(n as u8);
                        let (got, stored) = match kind {
                            0 => {
                                set_bool::<Mem>(id, n & 1 == 1);
                                (get_bool::<Mem>(id) == (n & 1 == 1), ((n & 1) as u32).to_be_bytes().to_vec())
                            }
                            1 => {
                                set32::<Mem>(id, n as u32);
                                (get32::<Mem>(id) == n as u32, (n as u32).to_be_bytes().to_vec())
                            }
                            2 => {
                                set64::<Mem>(id, n);
                                (get64::<Mem>(id) == n, n.to_be_bytes().to_vec())
                            }
                            3 => {
                                set_amount::<Mem>(id, Amount(n));
                                (get_amount::<Mem>(id) == Amount(n), n.to_be_bytes().to_vec())
                            }
                            _ => {
                                set_addr::<Mem>(id, &Address::from(a));
                                let x = get_addr::<Mem>(id);
                                // A later load doesn't change it.
                                set_addr::<Mem>(id, &Address::from(abi::addr(77)));
                                let _ = get_addr::<Mem>(id);
                                let ok = x.as_slice() == a;
                                set_addr::<Mem>(id, &Address::from(a));
                                (ok, a.to_vec())
                            }
                        };
                        let m = Mem::take();
                        if !got || m != BTreeMap::from([(id, stored)]) {
                            return Err(format!("variable {} of kind {} set to {}: the storage holds {:?}", id, kind, n, m));
                        }
                    }
                }
            }
            Ok(())
        },
    );
    for len in 0..6u32 {
        ctx.case(
            || format!("arrays of {}", len),
            |c| {
                for id in [0u32, 3, 1000] {
                    for index in [0usize, 1, 2, 3, 4, 5, 6, 255, 256, 65536, u32::MAX as usize] {
                        for kind in 0..5 {
                            c.step();
                            c.state(&(id, index, len, kind));
                            Mem::take();
                            let n = 0x0102_0304_0506_0709u64 + index as u64;
                            let a = abi::addr(9);
                            let set = || match kind {
                                0 => array_set_bool::<Mem>(id, index, len, true),
                                1 => array_set32::<Mem>(id, index, len, n as u32),
                                2 => array_set64::<Mem>(id, index, len, n),
                                3 => array_set_amount::<Mem>(id, index, len, Amount(n)),
                                _ => array_set_addr::<Mem>(id, index, len, &Address::from(a)),
                            };
                            let get = || match kind {
                                0 => array_get_bool::<Mem>(id, index, len),
                                1 => array_get32::<Mem>(id, index, len) == n as u32,
                                2 => array_get64::<Mem>(id, index, len) == n,
                                3 => array_get_amount::<Mem>(id, index, len) == Amount(n),
                                _ => array_get_addr::<Mem>(id, index, len).as_slice() == a,
                            };
                            let ok = index < len as usize;
                            let what = || format!("item {} of an array of {} at {}, kind {}", index, len, id, kind);
                            want(what, set, ok.then(|| ()))?;
                            want(what, get, ok.then(|| true))?;
                            let ids: Vec<u32> = Mem::take().into_iter().map(|(k, _)| k).collect();
                            if ids != if ok { vec![id + index as u32] } else { vec![] } {
                                return Err(format!("{}: wrote the variables {:?}", what(), ids));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- doubles

/// The stand-ins that templates are tested with.
fn doubles(ctx: &mut Ctx) {
    // Transfers among three accounts; every operation uses its own copies of the addresses.
    let ad = |k: usize| Address::from(abi::addr(20 + k as u8));
    const AMOUNTS: [u64; 4] = [0, 3, 10, u64::MAX];
    let ops = 3 * AMOUNTS.len();
    let depth = ctx.pick(3, 4);
    for first in 0..ops {
        ctx.case(
            || format!("test host, {}", first),
            |c| {
                let mut bad = None;
                sequences(ops, depth - 1, &mut |s| {
                    if bad.is_some() {
                        return;
                    }
                    let mut m = [10u64, 0, u64::MAX - 5];
                    for target in 0..3 {
                        m = [10, 0, u64::MAX - 5];
                        MockHost::reset();
                        (0..3).for_each(|k| MockHost::set_balance(&ad(k), Amount(m[k])));
                        MockHost::set_target(ad(target));
                        for op in std::iter::once(&first).chain(s) {
                            c.step();
                            let (dst, n) = (op / AMOUNTS.len(), AMOUNTS[op % AMOUNTS.len()]);
                            let fits = m[target] >= n && (dst == target || m[dst].checked_add(n).is_some());
                            let r = no_panic(|| MockHost::transfer(&ad(dst), Amount(n))).is_ok();
                            if fits {
                                m[target] -= n;
                                m[dst] += n;
                            }
                            let got: Vec<u64> = (0..3).map(|k| MockHost::balance_of(&ad(k)).0).collect();
                            if r != fits || got != m || MockHost::balance().0 != m[target] {
                                bad = Some(format!("target {}, {} {:?}: the test host holds {:?}, should be {:?}", target, first, s, got, m));
                                return;
                            }
                        }
                    }
                    c.state(&m);
                });
                bad.map_or(Ok(()), Err)
            },
        );
    }
    // Variables: set and get, of two ids and of all kinds.
    let depth = ctx.pick(4, 5);
    for first in 0..9 {
        ctx.case(
            || format!("test storage, {}", first),
            |c| {
                let mut bad = None;
                sequences(9, depth - 1, &mut |s| {
                    if bad.is_some() {
                        return;
                    }
                    use storage::*;
                    type M = MockStorage;
                    MockStorage::clear();
                    let mut m = (0u32, 0u64, [0u8; 20], false);
                    for (i, op) in std::iter::once(&first).chain(s).enumerate() {
                        c.step();
                        let n = [0u64, 7, u64::MAX][op % 3].wrapping_sub(i as u64);
                        let a = abi::addr(n as u8);
                        match op / 3 {
                            0 => {
                                set32::<M>(1, n as u32);
                                m.0 = n as u32;
                            }
                            1 => {
                                set_amount::<M>(2, Amount(n));
                                m.1 = n;
                            }
                            _ if op % 3 < 2 => {
                                set_addr::<M>(3, &Address::from(a));
                                m.2 = a;
                            }
                            _ => {
                                set_bool::<M>(4, i % 2 == 0);
                                m.3 = i % 2 == 0;
                            }
                        }
                        let mut b = [0; 20];
                        b.copy_from_slice(get_addr::<M>(3).as_slice());
                        let got = (get32::<M>(1), get64::<M>(2), b, get_bool::<M>(4));
                        if got != m {
                            bad = Some(format!("{} {:?}: the test storage holds {:?}, should be {:?}", first, s, got, m));
                            return;
                        }
                    }
                    c.state(&m);
                });
                bad.map_or(Ok(()), Err)
            },
        );
    }
    ctx.case(
        || "test host, the rest".into(),
        |c| {
            for n in [0usize, 1, 20, 255, 256, 1000] {
                c.step();
                MockHost::reset();
                let b: Vec<u8> = (0..n).map(|i| i as u8).collect();
                MockHost::set_raw_calldata(&b);
                MockHost::set_returndata(&b);
                MockHost::set_value(Amount(n as u64));
                MockHost::set_layer_id(LayerId(n as u64 + 1));
                MockHost::set_principal(Address::repeat(3));
                MockHost::set_target(Address::repeat(4));
                use svm_sdk_host::Host;
                let h = MockHost;
                let ok = h.calldata() == &b[..]
                    && MockHost::returndata() == Some(b.clone())
                    && MockHost::value() == Amount(n as u64)
                    && MockHost::layer_id() == LayerId(n as u64 + 1)
                    && h.principal() == Address::repeat(3)
                    && MockHost::target() == Address::repeat(4);
                if !ok {
                    return Err(format!("the test host tells something else ({} bytes)", n));
                }
                MockHost::log("a", 1);
                MockHost::log("", 255);
                if MockHost::logs() != vec![("a".to_string(), 1), (String::new(), 255)] {
                    return Err(format!("the logs are {:?}", MockHost::logs()));
                }
            }
            MockHost::reset();
            if MockHost::returndata().is_some() || !MockHost::logs().is_empty() {
                return Err("something is left after a reset".into());
            }
            Ok(())
        },
    );
}
