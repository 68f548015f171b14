//! V12: the ABI that templates and clients exchange values with.

use std::panic::{catch_unwind, AssertUnwindSafe};

use svm_abi_decoder::{CallData, Cursor, Decoder};
use svm_abi_encoder::{ByteSize, Encoder};
use svm_sdk_std::Option as SdkOption;
use svm_sdk_std::Vec as SdkVec;
use svm_sdk_types::value::{Composite, Primitive, Value};
use svm_sdk_types::{Address, Amount};
use vh_core::{hex, product, Ctx};

// ---------------------------------------------------------------- reference

/// A value of the ABI, kept apart from the types of the SDK.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Val {
    None,
    Unit,
    Bool(bool),
    Addr([u8; 20]),
    Amount(u64),
    /// width in bytes, signed, the value as it stands in 64 bits
    Int(u8, bool, u64),
    Arr(Vec<Val>),
}

/// The number of bytes that hold `n`.
fn width(n: u64) -> u8 {
    let mut w = 1;
    while w < 8 && n >> (8 * w) != 0 {
        w += 1;
    }
    w as u8
}

/// Cuts a number (in two's complement) to a width.
fn fit(bytes: u8, n: u64) -> u64 {
    if bytes == 8 {
        n
    } else {
        n & ((1 << (8 * bytes)) - 1)
    }
}

/// `n` as a number of the type, extended to 64 bits by its sign.
pub fn signed(bytes: u8, n: u64) -> i64 {
    let s = 64 - 8 * bytes as u32;
    ((n << s) as i64) >> s
}

/// The marker of an integer of `bytes` bytes, written in `w` bytes. This is the
/// table in the documentation of the ABI.
fn marker(bytes: u8, sign: bool, w: u8) -> u8 {
    let (row, first) = match (bytes, sign) {
        (1, true) => return 0x02,
        (1, false) => return 0x12,
        (2, true) => (2, 2),
        (2, false) => (2, 4),
        (4, true) => (3, 0),
        (4, false) => (3, 4),
        (8, true) => (4, 0),
        (8, false) => (5, 0),
        _ => unreachable!(),
    };
    ((first + w - 1) << 4) | row
}

fn be(n: u64, w: u8) -> Vec<u8> {
    (0..w).rev().map(|i| (n >> (8 * i)) as u8).collect()
}

pub fn enc(v: &Val) -> Vec<u8> {
    match v {
        Val::Bool(false) => vec![0x00],
        Val::Bool(true) => vec![0x10],
        Val::None => vec![0x20],
        Val::Unit => vec![0x30],
        Val::Addr(a) => [&[0x40], &a[..]].concat(),
        Val::Amount(n) => [vec![(width(*n) - 1) << 4 | 1], be(*n, width(*n))].concat(),
        Val::Int(b, s, n) => {
            let n = fit(*b, *n);
            [vec![marker(*b, *s, width(n))], be(n, width(n))].concat()
        }
        Val::Arr(a) => {
            let n = a.len() as u8;
            let mut r = vec![if n < 8 { n << 4 | 6 } else { (n - 8) << 4 | 7 }];
            a.iter().for_each(|v| r.extend(enc(v)));
            r
        }
    }
}

/// What the first bytes of `b` stand for, and how many they are.
pub fn dec(b: &[u8], nested: bool) -> Option<(Val, usize)> {
    let m = *b.get(0)?;
    let (row, col) = (m & 0xF, m >> 4);
    if col > 7 {
        return None;
    }
    let num = |w: u8| -> Option<u64> {
        let d = b.get(1..1 + w as usize)?;
        Some(d.iter().fold(0, |a, x| a << 8 | *x as u64))
    };
    let int = |bytes: u8, sign: bool, w: u8| Some((Val::Int(bytes, sign, num(w)?), 1 + w as usize));
    match (row, col) {
        (0, 0) => Some((Val::Bool(false), 1)),
        (0, 1) => Some((Val::Bool(true), 1)),
        (0, 2) => Some((Val::None, 1)),
        (0, 3) => Some((Val::Unit, 1)),
        (0, 4) => {
            let mut a = [0; 20];
            a.copy_from_slice(b.get(1..21)?);
            Some((Val::Addr(a), 21))
        }
        (1, c) => Some((Val::Amount(num(c + 1)?), 2 + c as usize)),
        (2, 0) => int(1, true, 1),
        (2, 1) => int(1, false, 1),
        (2, c @ 2..=3) => int(2, true, c - 1),
        (2, c @ 4..=5) => int(2, false, c - 3),
        (3, c @ 0..=3) => int(4, true, c + 1),
        (3, c) => int(4, false, c - 3),
        (4, c) => int(8, true, c + 1),
        (5, c) => int(8, false, c + 1),
        (6, _) | (7, 0..=2) if !nested => {
            let n = if row == 6 { col } else { 8 + col };
            let mut at = 1;
            let mut a = vec![];
            for _ in 0..n {
                let (v, k) = dec(&b[at..], true)?;
                a.push(v);
                at += k;
            }
            Some((Val::Arr(a), at))
        }
        _ => None,
    }
}

/// What a value of the SDK stands for.
pub fn val(v: &Value) -> Val {
    match v {
        Value::Primitive(p) => match p {
            Primitive::None => Val::None,
            Primitive::Unit => Val::Unit,
            Primitive::Bool(b) => Val::Bool(*b),
            Primitive::Address(a) => {
                let mut x = [0; 20];
                x.copy_from_slice(a.as_slice());
                Val::Addr(x)
            }
            Primitive::Amount(a) => Val::Amount(a.0),
            Primitive::I8(n) => Val::Int(1, true, *n as u8 as u64),
            Primitive::U8(n) => Val::Int(1, false, *n as u64),
            Primitive::I16(n) => Val::Int(2, true, *n as u16 as u64),
            Primitive::U16(n) => Val::Int(2, false, *n as u64),
            Primitive::I32(n) => Val::Int(4, true, *n as u32 as u64),
            Primitive::U32(n) => Val::Int(4, false, *n as u64),
            Primitive::I64(n) => Val::Int(8, true, *n as u64),
            Primitive::U64(n) => Val::Int(8, false, *n),
        },
        Value::Composite(Composite::Vec(a)) => Val::Arr(a.as_slice().iter().map(val).collect()),
    }
}

pub fn sdk(v: &Val) -> Value {
    Value::Primitive(match v {
        Val::None => Primitive::None,
        Val::Unit => Primitive::Unit,
        Val::Bool(b) => Primitive::Bool(*b),
        Val::Addr(a) => Primitive::Address(Address::from(*a)),
        Val::Amount(n) => Primitive::Amount(Amount(*n)),
        Val::Int(1, true, n) => Primitive::I8(*n as i8),
        Val::Int(1, false, n) => Primitive::U8(*n as u8),
        Val::Int(2, true, n) => Primitive::I16(*n as i16),
        Val::Int(2, false, n) => Primitive::U16(*n as u16),
        Val::Int(4, true, n) => Primitive::I32(*n as i32),
        Val::Int(4, false, n) => Primitive::U32(*n as u32),
        Val::Int(_, true, n) => Primitive::I64(*n as i64),
        Val::Int(_, false, n) => Primitive::U64(*n),
        Val::Arr(a) => {
            let mut r = SdkVec::with_capacity(a.len());
            a.iter().for_each(|v| r.push(sdk(v)));
            return Value::Composite(Composite::Vec(r));
        }
    })
}

// ---------------------------------------------------------------- values

/// The widths and signs of the integers.
pub const INTS: [(u8, bool); 8] =
    [(1, true), (1, false), (2, true), (2, false), (4, true), (4, false), (8, true), (8, false)];

/// All the numbers around the borders of bytes and of bits.
pub fn numbers(bytes: u8) -> Vec<u64> {
    let mut v = vec![0, 1];
    for bit in 0..8 * bytes as u32 {
        for d in 0..5u64 {
            v.push((1u64 << bit).wrapping_add(d).wrapping_sub(2));
            v.push((1u64 << bit).wrapping_neg().wrapping_add(d).wrapping_sub(2));
        }
    }
    for i in 0..bytes {
        for b in 0..=255u64 {
            v.push(b << (8 * i));
            v.push(!(b << (8 * i)));
            v.push((b << (8 * i)) | (0x0102_0304_0506_0708 & ((1u64 << (8 * i)) - 1)));
        }
    }
    v.push(0x0102_0304_0506_0708);
    v.push(0xF1F2_F3F4_F5F6_F7F8);
    v.iter_mut().for_each(|n| *n = fit(bytes, *n));
    v.sort_unstable();
    v.dedup();
    v
}

pub fn addr(k: u8) -> [u8; 20] {
    let mut a = [k; 20];
    if k > 1 && k < 0xFF {
        (0..20).for_each(|i| a[i] = (i as u8).wrapping_mul(11).wrapping_add(k));
    }
    a
}

/// A few values of every kind of primitive.
pub fn some_values() -> Vec<Val> {
    let mut v = vec![Val::Bool(false), Val::Bool(true), Val::Addr(addr(0)), Val::Addr(addr(0xFF)), Val::Addr(addr(5))];
    for n in [0, 1, 0xFF, 0x100, 0x10_0000_0000, u64::MAX] {
        v.push(Val::Amount(n));
    }
    for (b, s) in INTS {
        let top = 1u64 << (8 * b as u32 - 1);
        for n in [0, 1, 0x12, top - 1, top, fit(b, u64::MAX), fit(b, 0x1234_5678_9ABC_DEF0)] {
            v.push(Val::Int(b, s, n));
        }
    }
    v
}

// ---------------------------------------------------------------- checks

/// A buffer that is used over and over: the vectors of the SDK never free.
struct Buf(Vec<u8>);

impl Buf {
    fn new() -> Self {
        Buf(vec![0; 4096])
    }

    fn encode(&mut self, cap: usize, v: &impl Encoder) -> &[u8] {
        let mut w = unsafe { SdkVec::from_raw_parts(self.0.as_ptr(), cap) };
        w.clear();
        v.encode(&mut w);
        let n = w.len();
        &self.0[..n]
    }
}

/// Encodes `v`, which stands for `want`, and decodes it.
fn round<T>(c: &mut Ctx, buf: &mut Buf, v: T, want: &Val) -> Result<(), String>
where
    T: Encoder + ByteSize + From<Value> + PartialEq,
{
    let bytes = enc(want);
    c.steps(2);
    let fail = |what: String| Err(format!("{:?}: {}", want, what));
    if v.byte_size() != bytes.len() || T::max_byte_size() < bytes.len() {
        return fail(format!(
            "size {} (at most {}), but the format takes {}",
            v.byte_size(),
            T::max_byte_size(),
            bytes.len()
        ));
    }
    let got = buf.encode(T::max_byte_size(), &v);
    if got != &bytes[..] {
        return fail(format!("encoded as {}, the format says {}", hex(got), hex(&bytes)));
    }
    let mut cur = Cursor::new(got);
    let back = match Decoder::new().decode_value(&mut cur) {
        svm_sdk_std::Result::Ok(b) => b,
        _ => return fail("doesn't decode".into()),
    };
    if val(&back) != *want || !cur.is_eof() {
        return fail(format!("decodes to {:?}", val(&back)));
    }
    if T::from(back) != v {
        return fail("the decoded value converts into another one".into());
    }
    let mut cd = CallData::new(got);
    let again: T = cd.next_1();
    if again != v || !matches!(cd.next(), SdkOption::None) {
        return fail("next_1 gives another value".into());
    }
    Ok(())
}

macro_rules! ints {
    ($f:ident, $($b:expr, $s:expr, $t:ty, $u:ty);*) => { $( $f!($b, $s, $t, $u); )* };
}

/// Decodes `b` from the start, and compares with the reference.
fn judge(b: &[u8]) -> Result<Option<(Val, usize)>, String> {
    let want = dec(b, false);
    // What follows a value isn't looked at, so the end must be found by counting.
    let mut cur = Cursor::new(b);
    let got = match catch_unwind(AssertUnwindSafe(|| Decoder::new().decode_value(&mut cur))) {
        Ok(svm_sdk_std::Result::Ok(v)) => Some(val(&v)),
        Ok(svm_sdk_std::Result::Err(_)) => None,
        Err(_) => return Err(format!("{}: decoding panics", hex(b))),
    };
    if got != want.as_ref().map(|w| w.0.clone()) {
        return Err(format!("{}: decodes to {:?}, the format says {:?}", hex(b), got, want));
    }
    if let Some((_, n)) = want {
        let mut rest = 0;
        while !cur.is_eof() {
            match cur.read_byte() {
                SdkOption::Some(_) => rest += 1,
                SdkOption::None => break,
            }
        }
        if rest + n != b.len() {
            return Err(format!("{}: {} bytes left, should be {}", hex(b), rest, b.len() - n));
        }
    }
    Ok(want)
}

fn arr<T: Copy, const N: usize>(f: impl Fn(usize) -> T) -> [T; N] {
    let mut k = 0;
    [(); N].map(|_| {
        k += 1;
        f(k - 1)
    })
}

/// Arrays of `N` items, each taken from `items`, shifted by `k`.
fn array_case<T, const N: usize>(c: &mut Ctx, items: &[(T, Val)], k: usize) -> Result<(), String>
where
    T: Encoder + ByteSize + Copy + PartialEq,
    [T; N]: From<Value>,
{
    let a: [T; N] = arr(|i| items[(i * (k + 1) + k) % items.len()].0);
    let want = Val::Arr((0..N).map(|i| items[(i * (k + 1) + k) % items.len()].1.clone()).collect());
    c.state(&want);
    let mut buf = Buf::new();
    let bytes = enc(&want);
    let got = buf.encode(4096, &&a[..]).to_vec();
    if got != bytes {
        return Err(format!("slice encoded as {}, the format says {}", hex(&got), hex(&bytes)));
    }
    round(c, &mut buf, a, &want)
}

fn arrays<T>(ctx: &mut Ctx, name: &str, items: Vec<(T, Val)>)
where
    T: Encoder + ByteSize + Copy + PartialEq,
    [T; 1]: From<Value>,
    [T; 2]: From<Value>,
    [T; 3]: From<Value>,
    [T; 4]: From<Value>,
    [T; 5]: From<Value>,
    [T; 6]: From<Value>,
    [T; 7]: From<Value>,
    [T; 8]: From<Value>,
    [T; 9]: From<Value>,
    [T; 10]: From<Value>,
{
    for k in 0..items.len() {
        ctx.case(|| format!("arrays of {} #{}", name, k), |c| {
            array_case::<T, 1>(c, &items, k)?;
            array_case::<T, 2>(c, &items, k)?;
            array_case::<T, 3>(c, &items, k)?;
            array_case::<T, 4>(c, &items, k)?;
            array_case::<T, 5>(c, &items, k)?;
            array_case::<T, 6>(c, &items, k)?;
            array_case::<T, 7>(c, &items, k)?;
            array_case::<T, 8>(c, &items, k)?;
            array_case::<T, 9>(c, &items, k)?;
            array_case::<T, 10>(c, &items, k)?;
            // none, and one too many
            let mut buf = Buf::new();
            let none: [T; 0] = [];
            let got = buf.encode(<[T; 0]>::max_byte_size(), &none).to_vec();
            if got != [6] || none.byte_size() != 1 || judge(&got)?.is_none() {
                return Err(format!("no items: {}", hex(&got)));
            }
            let many: [T; 11] = [items[k].0; 11];
            if catch_unwind(AssertUnwindSafe(|| Buf::new().encode(4096, &many).len())).is_ok() {
                return Err("eleven items are encoded".into());
            }
            Ok(())
        });
    }
}

fn tuple_case(c: &mut Ctx, vals: &[Val]) -> Result<(), String> {
    let b: Vec<u8> = vals.iter().flat_map(enc).collect();
    c.state(vals);
    c.steps(vals.len() as u64 + 1);
    let mut cd = CallData::new(&b);
    for v in vals {
        match cd.next() {
            SdkOption::Some(g) if val(&g) == *v => (),
            SdkOption::Some(g) => return Err(format!("{:?}: reads {:?} instead of {:?}", vals, val(&g), v)),
            _ => return Err(format!("{:?}: ends before {:?}", vals, v)),
        }
    }
    match cd.next() {
        SdkOption::None => Ok(()),
        _ => Err(format!("{:?}: goes on after the end", vals)),
    }
}

pub fn v12(ctx: &mut Ctx) {
    // Numbers: all of 8 and 16 bits, around every border of the longer ones.
    macro_rules! num {
        ($b:expr, $s:expr, $t:ty, $u:ty) => {
            let all: Vec<u64> = if $b <= 2 { (0..=<$u>::MAX as u64).collect() } else { numbers($b) };
            for (k, part) in all.chunks(2048).enumerate() {
                ctx.case(|| format!("{} part {}", stringify!($t), k), |c| {
                    let mut buf = Buf::new();
                    for n in part {
                        let want = Val::Int($b, $s, *n);
                        c.state(&want);
                        round(c, &mut buf, *n as $t, &want)?;
                        // The same as an option.
                        let got = buf.encode(<SdkOption<$t>>::max_byte_size(), &SdkOption::Some(*n as $t)).to_vec();
                        if got != enc(&want) {
                            return Err(format!("Some({}): {}", n, hex(&got)));
                        }
                        let mut cd = CallData::new(&got);
                        let o: SdkOption<$t> = cd.next_1();
                        if !matches!(o, SdkOption::Some(m) if m == *n as $t) || SdkOption::Some(*n as $t).byte_size() != got.len() {
                            return Err(format!("Some({}): another value", n));
                        }
                    }
                    let none: SdkOption<$t> = SdkOption::None;
                    let got = buf.encode(<SdkOption<$t>>::max_byte_size(), &none).to_vec();
                    let mut cd = CallData::new(&got);
                    let back: SdkOption<$t> = cd.next_1();
                    if got != [0x20] || none.byte_size() != 1 || !matches!(back, SdkOption::None) {
                        return Err("None".into());
                    }
                    Ok(())
                });
            }
            if $b == 4 && ctx.thorough() {
                // All 2^32 of them.
                for hi in 0..4096u64 {
                    if ctx.out_of_time() {
                        break;
                    }
                    ctx.case(|| format!("{} all of {:03X}xxxxx", stringify!($t), hi), |c| {
                        let mut buf = Buf::new();
                        for lo in 0..1u64 << 20 {
                            let n = (hi << 20 | lo) as $t;
                            let w = width(n as $u as u64) as usize;
                            let got = buf.encode(5, &n);
                            let mut cur = Cursor::new(got);
                            if got.len() != w + 1
                                || got[0] != marker($b, $s, w as u8)
                                || got[1..] != (n as u32).to_be_bytes()[4 - w..]
                                || n.byte_size() != w + 1
                            {
                                return Err(format!("{}: {}", n, hex(got)));
                            }
                            let same = match Decoder::new().decode_value(&mut cur) {
                                svm_sdk_std::Result::Ok(v) => <$t>::from(v) == n && cur.is_eof(),
                                _ => false,
                            };
                            if !same {
                                return Err(format!("{}: doesn't decode from {}", n, hex(got)));
                            }
                        }
                        c.steps(2 << 20);
                        Ok(())
                    });
                }
            }
        };
    }
    ints!(num, 1, true, i8, u8; 1, false, u8, u8; 2, true, i16, u16; 2, false, u16, u16; 4, true, i32, u32; 4, false, u32, u32; 8, true, i64, u64; 8, false, u64, u64);

    for (k, part) in numbers(8).chunks(2048).enumerate() {
        ctx.case(|| format!("amounts part {}", k), |c| {
            let mut buf = Buf::new();
            for n in part {
                c.state(&Val::Amount(*n));
                round(c, &mut buf, Amount(*n), &Val::Amount(*n))?;
            }
            Ok(())
        });
    }
    ctx.case(|| "booleans, addresses and nothing".into(), |c| {
        let mut buf = Buf::new();
        round(c, &mut buf, true, &Val::Bool(true))?;
        round(c, &mut buf, false, &Val::Bool(false))?;
        round(c, &mut buf, (), &Val::Unit)?;
        for k in 0..=255 {
            round(c, &mut buf, Address::from(addr(k)), &Val::Addr(addr(k)))?;
        }
        for i in 0..20 {
            for b in 0..=255 {
                let mut a = addr(7);
                a[i] = b;
                round(c, &mut buf, Address::from(a), &Val::Addr(a))?;
            }
        }
        Ok(())
    });

    // Arrays
    let ns = |b: u8| -> Vec<u64> {
        let top = 1u64 << (8 * b as u32 - 1);
        [1, 0, 0xFF, 0x100, 0x1_0000, 0xFF_FFFF, top - 1, top, u64::MAX, 0x0102_0304_0506_0708, 0x80_0000_0000]
            .iter()
            .map(|n| fit(b, *n))
            .collect()
    };
    macro_rules! int_arrays {
        ($b:expr, $s:expr, $t:ty, $u:ty) => {
            arrays(ctx, stringify!($t), ns($b).into_iter().map(|n| (n as $t, Val::Int($b, $s, n))).collect());
        };
    }
    ints!(int_arrays, 1, true, i8, u8; 1, false, u8, u8; 2, true, i16, u16; 2, false, u16, u16; 4, true, i32, u32; 4, false, u32, u32; 8, true, i64, u64; 8, false, u64, u64);
    arrays(ctx, "bool", vec![(true, Val::Bool(true)), (false, Val::Bool(false)), (true, Val::Bool(true))]);
    arrays(ctx, "amounts", ns(8).into_iter().map(|n| (Amount(n), Val::Amount(n))).collect());
    arrays(ctx, "addresses", (0..7).map(|k| (Address::from(addr(k * 40)), Val::Addr(addr(k * 40)))).collect());

    // Sequences of values, and arrays of mixed ones
    let vals = some_values();
    let mut extra = vals.clone();
    extra.extend([Val::None, Val::Unit, Val::Arr(vec![]), Val::Arr(vals[..10].to_vec()), Val::Arr(vals[30..39].to_vec())]);
    extra.push(Val::Arr(vec![Val::None, Val::Unit, Val::Bool(true)]));
    for a in &extra {
        ctx.case(|| format!("sequences starting with {:?}", a), |c| {
            tuple_case(c, &[a.clone()])?;
            for b in &extra {
                tuple_case(c, &[a.clone(), b.clone()])?;
                // Encoded by the SDK as well.
                let mut buf = Buf::new();
                let v = sdk(&Val::Arr(vec![a.clone(), b.clone()]));
                let got = buf.encode(4096, &v).to_vec();
                let want = enc(&Val::Arr(vec![a.clone(), b.clone()]));
                if got != want {
                    return Err(format!("[{:?}, {:?}] encoded as {}", a, b, hex(&got)));
                }
                judge(&got)?;
                for d in &extra {
                    tuple_case(c, &[a.clone(), b.clone(), d.clone()])?;
                }
            }
            Ok(())
        });
    }

    // Tuples and the readers of several values at once
    let pick = [0u64, 1, 0x1FF, u64::MAX];
    product(&[4, 4, 4, 4, 4, 4], &mut |ix| {
        if ctx.tier == vh_core::Tier::Quick && ix[3..].iter().any(|i| *i == 1) {
            return;
        }
        let key = ix.to_vec();
        ctx.case(|| format!("tuple {:?}", key), |c| {
            let n = |i: usize| pick[key[i]];
            let t = (n(0) as u8, n(1) as i16, n(2), Amount(n(3)), n(4) as i32, n(5) % 2 == 1);
            let vals = [
                Val::Int(1, false, fit(1, n(0))),
                Val::Int(2, true, fit(2, n(1))),
                Val::Int(8, false, n(2)),
                Val::Amount(n(3)),
                Val::Int(4, true, fit(4, n(4))),
                Val::Bool(n(5) % 2 == 1),
            ];
            let want: Vec<Vec<u8>> = (0..=6).map(|k| vals[..k].iter().flat_map(enc).collect()).collect();
            let mut buf = Buf::new();
            macro_rules! tup {
                ($k:expr, $t:expr, $next:ident) => {
                    let t = $t;
                    if t.byte_size() != want[$k].len() {
                        return Err(format!("tuple of {}: size {}", $k, t.byte_size()));
                    }
                    let got = buf.encode(size_of_tuple(&t), &t).to_vec();
                    if got != want[$k] {
                        return Err(format!("tuple of {}: {} instead of {}", $k, hex(&got), hex(&want[$k])));
                    }
                    c.steps(2);
                    let mut cd = CallData::new(&got);
                    let back = cd.$next();
                    let same = { let mut x = t; std::mem::swap(&mut x, &mut { back }); x == t };
                    if !same || !matches!(cd.next(), SdkOption::None) {
                        return Err(format!("tuple of {}: read back differently", $k));
                    }
                };
            }
            tup!(2, (t.0, t.1), next_2);
            tup!(3, (t.0, t.1, t.2), next_3);
            tup!(4, (t.0, t.1, t.2, t.3), next_4);
            tup!(5, (t.0, t.1, t.2, t.3, t.4), next_5);
            tup!(6, t, next_6);
            let one = (t.2,);
            if one.byte_size() != enc(&vals[2]).len() || buf.encode(9, &one) != &enc(&vals[2])[..] {
                return Err("tuple of 1".into());
            }
            Ok(())
        });
    });

    // A value of one type isn't taken for one of another.
    ctx.case(|| "conversions".into(), |c| {
        for v in &extra {
            let kind = |t: &Val| match (t, v) {
                (Val::Int(a, s, _), Val::Int(b, r, _)) => a == b && s == r,
                _ => std::mem::discriminant(t) == std::mem::discriminant(v),
            };
            macro_rules! conv {
                ($t:ty, $like:expr, $opt:expr) => {
                    c.step();
                    if catch_unwind(AssertUnwindSafe(|| <$t>::from(sdk(v)))).is_ok() != ($opt && *v == Val::None || kind(&$like)) {
                        return Err(format!("{:?} as {}", v, stringify!($t)));
                    }
                };
            }
            macro_rules! both {
                ($t:ty, $like:expr) => {
                    conv!($t, $like, false);
                    conv!(SdkOption<$t>, $like, true);
                };
            }
            both!(bool, Val::Bool(true));
            both!(Amount, Val::Amount(0));
            both!(Address, Val::Addr([0; 20]));
            both!(i8, Val::Int(1, true, 0));
            both!(u8, Val::Int(1, false, 0));
            both!(i16, Val::Int(2, true, 0));
            both!(u16, Val::Int(2, false, 0));
            both!(i32, Val::Int(4, true, 0));
            both!(u32, Val::Int(4, false, 0));
            both!(i64, Val::Int(8, true, 0));
            both!(u64, Val::Int(8, false, 0));
            conv!((), Val::Unit, false);
        }
        // Arrays of another length
        for n in 0..=10 {
            let v = Val::Arr(vec![Val::Int(1, false, 7); n]);
            c.step();
            if catch_unwind(AssertUnwindSafe(|| <[u8; 4]>::from(sdk(&v)))).is_ok() != (n == 4) {
                return Err(format!("{} items as [u8; 4]", n));
            }
        }
        Ok(())
    });

    // Bytes of any kind: each is decoded as the format says, or refused.
    ctx.case(|| "no bytes".into(), |_| judge(&[]).map(|_| ()));
    for a in 0..=255u8 {
        ctx.case(|| format!("bytes starting with {:02X}", a), |c| {
            judge(&[a])?;
            for b in 0..=255u8 {
                judge(&[a, b])?;
                for x in if c.thorough() { (0..=255u8).collect() } else { vec![0x00, 0x02, 0x12, 0x16, 0x20, 0x30, 0x40, 0x50, 0x7F, 0x80, 0xFF] } {
                    judge(&[a, b, x])?;
                    c.step();
                }
            }
            // Every length of what follows
            for pat in [0u8, 0x02, 0x12, 0x30, 0x80, 0xFF] {
                for n in 0..=45 {
                    let mut b = vec![a];
                    b.extend((0..n).map(|i| if i % 3 == 2 { pat } else { pat ^ (a & 0x10) }));
                    if let Some(v) = judge(&b)? {
                        c.state(&v);
                    }
                    c.step();
                }
            }
            Ok(())
        });
    }
    // Arrays cut at any place, or with one byte changed to any other
    let tops = [
        Val::Arr(vec![Val::Int(4, false, 0x01020304), Val::Amount(0x0102030405), Val::Bool(true)]),
        Val::Arr((0..10).map(|i| Val::Int(2, true, i * 0x111)).collect()),
        Val::Arr(vec![Val::Addr(addr(9)); 2]),
        Val::Addr(addr(3)),
        Val::Int(8, true, u64::MAX),
    ];
    for t in &tops {
        let b = enc(t);
        for i in 0..b.len() {
            ctx.case(|| format!("{} changed at {}", hex(&b), i), |c| {
                judge(&b[..i])?;
                for x in 0..=255 {
                    let mut m = b.clone();
                    m[i] = x;
                    c.step();
                    judge(&m)?;
                    m.insert(i, b[i]);
                    judge(&m)?;
                    m.remove(i + 1);
                    m.remove(i);
                    judge(&m)?;
                }
                Ok(())
            });
        }
    }
}

fn size_of_tuple<T: ByteSize>(_: &T) -> usize {
    T::max_byte_size()
}
