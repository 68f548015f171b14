//! V26: queries of storage, and the values the host computes with.

use std::collections::BTreeMap;
use std::convert::TryFrom;

use serde_json::Value;
use svm_hash::{Blake3Hasher, Hasher};
use svm_layout::{FixedLayout, Layout, RawVar};
use svm_query::query::{StorageQuery, StorageReader, StorageReq, StorageReqKind};
use svm_query::render::{JsonVarRenderer, VarRenderer};
use svm_query::schema::{Schema, Var, VarLayout, VarType};
use svm_types::*;
use vh_core::{hex, no_panic, product, sequences, Ctx};

// ---------------------------------------------------------------------------
// Queries

fn var(id: usize, ty: VarType, length: usize) -> Var {
    Var { id, layout: VarLayout { offset: id / 2, length }, ty, name: format!("v{}", id), desc: String::new() }
}

fn int_of(bytes: &[u8], signed: bool) -> Value {
    let mut n: i128 = 0;
    for b in bytes {
        n = n * 256 + *b as i128;
    }
    if signed && bytes[0] >= 0x80 {
        n -= 1i128 << (8 * bytes.len());
        Value::from(n as i64)
    } else {
        Value::from(n as u64)
    }
}

fn hex_of(prefix: &str, bytes: &[u8]) -> Value {
    let mut s = prefix.to_string();
    for b in bytes {
        s.push_str(&format!("{:02X}", b));
    }
    Value::String(s)
}

fn rendered(ty: &VarType, length: usize, bytes: &[u8]) -> Option<Value> {
    match ty {
        VarType::Int(_) if length > 8 || length == 0 || bytes.len() != length => None,
        VarType::Int(signed) => Some(int_of(bytes, *signed)),
        VarType::Bool => match bytes {
            [0] => Some(Value::Bool(false)),
            [1] => Some(Value::Bool(true)),
            _ => None,
        },
        VarType::Blob => Some(hex_of("", bytes)),
        VarType::Address | VarType::PubKey => Some(hex_of("0x", bytes)),
        VarType::Balance => unreachable!("unfinished"),
    }
}

fn check_render(c: &mut Ctx, ty: VarType, length: usize, bytes: &[u8]) -> Result<(), String> {
    c.step();
    let v = var(3, ty.clone(), length);
    let got = no_panic(|| JsonVarRenderer::render(&v, bytes))?;
    let want = rendered(&ty, length, bytes);
    if got != want {
        return Err(format!("rendered as {:?}, not {:?}", got, want));
    }
    c.state(&format!("{:?} {:?}", ty, got));
    Ok(())
}

/// A storage of raw values that notes what it is asked for.
struct Store {
    raw: BTreeMap<usize, Vec<u8>>,
    asked: Vec<(StorageReq, Var)>,
}

impl StorageReader<Value, JsonVarRenderer> for Store {
    fn read_var_raw(&mut self, req: &StorageReq, var: &Var) -> Option<Vec<u8>> {
        self.asked.push((req.clone(), var.clone()));
        self.raw.get(&var.id).cloned()
    }
}

fn queries(c: &mut Ctx) {
    let vars: Vec<(Var, Option<Vec<u8>>)> = vec![
        (var(0, VarType::Bool, 1), Some(vec![1])),
        (var(1, VarType::Int(false), 2), Some(vec![0x80, 3])),
        (var(5, VarType::Int(true), 2), Some(vec![0x80, 3])),
        (var(6, VarType::Blob, 3), Some(vec![1, 2, 3])),
        (var(usize::MAX, VarType::Address, 20), Some(vec![9; 20])),
        (var(8, VarType::PubKey, 32), None),
        (var(9, VarType::Bool, 1), Some(vec![2])),
    ];
    let ids = [0usize, 1, 2, 5, 6, 7, 8, 9, usize::MAX, usize::MAX - 1];
    // Which variables the schema knows (all subsets of size ≥ 5 and some small ones).
    for mask in 0u32..1 << vars.len() {
        if mask.count_ones() > 1 && mask.count_ones() < 6 && !c.thorough() {
            continue;
        }
        for len in 0..=3 {
            product(&vec![ids.len(); len], &mut |q| {
                if len == 3 && !c.thorough() && mask.count_ones() < 7 {
                    return;
                }
                c.case(
                    || format!("schema {:b}, requests of {:?}", mask, q.iter().map(|i| ids[*i]).collect::<Vec<_>>()),
                    |c| {
                        let mut schema = Schema::new();
                        let mut store = Store { raw: BTreeMap::new(), asked: vec![] };
                        for (k, (v, raw)) in vars.iter().enumerate() {
                            if mask >> k & 1 == 1 {
                                schema.add_var(v.clone());
                            }
                            if let Some(r) = raw {
                                store.raw.insert(v.id, r.clone());
                            }
                        }
                        let mut query = StorageQuery::new();
                        let mut want = vec![];
                        let mut asked = vec![];
                        for (n, i) in q.iter().enumerate() {
                            let req = StorageReq { var_id: ids[*i], kind: StorageReqKind::Get, params: vec![format!("{}", n)] };
                            query.add_req(req.clone());
                            let known = vars.iter().enumerate().find(|(k, (v, _))| v.id == ids[*i] && mask >> k & 1 == 1);
                            want.push(known.and_then(|(_, (v, raw))| raw.as_ref().and_then(|r| rendered(&v.ty, v.layout.length, r))));
                            if let Some((_, (v, _))) = known {
                                asked.push((req, v.clone()));
                            }
                        }
                        for round in 0..2 {
                            c.step();
                            store.asked.clear();
                            let got: Vec<Option<Value>> = no_panic(|| query.run(&schema, &mut store))?;
                            if got != want {
                                return Err(format!("round {}: {:?}, but should be {:?}", round, got, want));
                            }
                            if store.asked != asked {
                                return Err(format!("the storage was asked {:?}, not {:?}", store.asked, asked));
                            }
                        }
                        c.state(&format!("{:?}", want));
                        Ok(())
                    },
                );
            });
        }
    }
    // A variable declared twice: the last declaration counts.
    for (a, b) in [(VarType::Bool, VarType::Blob), (VarType::Blob, VarType::Int(false)), (VarType::Int(true), VarType::Int(false))] {
        c.case(|| format!("{:?} declared again as {:?}", a, b), |c| {
            c.step();
            let mut schema = Schema::new();
            schema.add_var(var(4, a.clone(), 1));
            schema.add_var(var(4, b.clone(), 1));
            if schema.var(4) != Some(var(4, b.clone(), 1)) || schema.var(5).is_some() {
                return Err(format!("{:?} {:?}", schema.var(4), schema.var(5)));
            }
            Ok(())
        });
    }
    // Rendering.
    const B: [u8; 6] = [0, 1, 0x7F, 0x80, 0xA5, 0xFF];
    let all = if c.thorough() { 5 } else { 4 };
    for length in 0..=10usize {
        let pool: &[u8] = if length <= all { &B } else { &[0, 0x80, 0xFF] };
        if length > 8 {
            for n in [length, 8] {
                for ty in [VarType::Int(false), VarType::Int(true)] {
                    c.case(|| format!("{:?} of {} bytes, declared {}", ty, n, length), |c| check_render(c, ty.clone(), length, &vec![1; n]));
                }
            }
            continue;
        }
        if pool.len().pow(length as u32) > 10_000 {
            continue;
        }
        product(&vec![pool.len(); length], &mut |v| {
            let bytes: Vec<u8> = v.iter().map(|i| pool[*i]).collect();
            for ty in [VarType::Int(false), VarType::Int(true), VarType::Blob, VarType::Address, VarType::PubKey, VarType::Bool] {
                c.case(|| format!("{:?} {}", ty, hex(&bytes)), |c| check_render(c, ty.clone(), length, &bytes));
            }
            // Raw values of another length than declared.
            for declared in [0usize, 1, 2, 4, 8, 9] {
                if declared == length || length > 3 {
                    continue;
                }
                for ty in [VarType::Int(false), VarType::Int(true)] {
                    c.case(|| format!("{:?} of {} bytes: {}", ty, declared, hex(&bytes)), |c| check_render(c, ty.clone(), declared, &bytes));
                }
            }
        });
    }
    for b in 0..=255u8 {
        for ty in [VarType::Int(false), VarType::Int(true), VarType::Blob, VarType::Address, VarType::PubKey, VarType::Bool] {
            c.case(|| format!("{:?} {:02x}", ty, b), |c| check_render(c, ty.clone(), 1, &[b]));
        }
    }
}

// ---------------------------------------------------------------------------
// Gas

fn gas(c: &mut Ctx) {
    let mut ns = vec![0u64, 1, 2, 3, 9, 10, 999, 1000, 1001];
    for s in [8u32, 16, 31, 32, 33, 53, 63] {
        ns.extend_from_slice(&[(1 << s) - 1, 1 << s, (1 << s) + 1]);
    }
    ns.extend_from_slice(&[u64::MAX - 1, u64::MAX]);
    let mut gs: Vec<Option<u64>> = ns.iter().map(|n| Some(*n)).collect();
    gs.push(None);
    for g in &gs {
        for n in &ns {
            c.case(|| format!("gas {:?} and {}", g, n), |c| {
                c.steps(8);
                c.state(&(g, n));
                let x = g.map_or(Gas::new(), Gas::with);
                let bad = |what: &str| Err(format!("{} is wrong for {:?} and {}", what, g, n));
                if x.is_some() != g.is_some() || x.is_none() != g.is_none() || x.unwrap_or(*n) != g.unwrap_or(*n) {
                    return bad("the content");
                }
                let sum = no_panic(|| x + *n);
                let exact = g.map(|g| g.checked_add(*n));
                match (sum, exact) {
                    (Ok(s), None) if s == Gas::new() => {}
                    (Ok(s), Some(Some(e))) if s == Gas::with(e) => {}
                    (Err(_), Some(None)) => {}
                    _ => return bad("the sum"),
                }
                if exact != Some(None) {
                    let mut y = x;
                    y += *n;
                    if y != x + *n {
                        return bad("the sum assigned");
                    }
                }
                match (x - *n, g) {
                    (Ok(d), None) if d == Gas::new() => {}
                    (Ok(d), Some(g)) if g >= n && d == Gas::with(g - n) => {}
                    (Err(OOGError {}), Some(g)) if g < n => {}
                    _ => return bad("the difference"),
                }
                // No limit is more than every limit.
                let w = g.map_or(u128::MAX, |g| g as u128);
                let m = *n as u128;
                if (x < *n) != (w < m) || (x <= *n) != (w <= m) || (x > *n) != (w > m) || (x >= *n) != (w >= m) || (x == *n) != (w == m) || (*n == x) != (w == m) {
                    return bad("a comparison");
                }
                if (x == Gas::from(*n)) != (*g == Some(*n)) {
                    return bad("equality");
                }
                if x.map(|v| v ^ 1) != g.map_or(Gas::new(), |v| Gas::with(v ^ 1)) {
                    return bad("the mapping");
                }
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------------------
// Addresses, states and other byte strings

fn primitive<T, const N: usize>(c: &mut Ctx, name: &str)
where
    T: BytesPrimitive<N> + std::fmt::Debug,
{
    for len in 0..=2 * N + 2 {
        c.case(|| format!("{} of {} bytes", name, len), |c| {
            c.steps(3);
            c.state(&(name, len));
            let bytes: Vec<u8> = (0..len).map(|i| (i * 37 + 11) as u8).collect();
            let x = T::new_opt(&bytes);
            if x.is_some() != (len == N) || no_panic(|| T::new(&bytes)).is_ok() != (len == N) {
                return Err("its length isn't checked".into());
            }
            if let Some(x) = x {
                if x.as_slice() != &bytes[..] || x.iter().copied().collect::<Vec<u8>>() != bytes || T::new(&bytes) != x {
                    return Err("its bytes changed".into());
                }
                let text: String = bytes.iter().map(|b| format!("{:02X}", b)).collect();
                if BytesPrimitive::to_string(&x) != text {
                    return Err(format!("its text is {}, not {}", BytesPrimitive::to_string(&x), text));
                }
                for i in 0..=N + 1 {
                    if i > N {
                        if no_panic(|| x.first_n(i).len()).is_ok() || no_panic(|| x.last_n(i).len()).is_ok() {
                            return Err("has more bytes than it has".into());
                        }
                        continue;
                    }
                    if x.first_n(i) != &bytes[..i] || x.last_n(i) != &bytes[N - i..] {
                        return Err(format!("its first or last {} bytes are wrong", i));
                    }
                    for j in 0..=N {
                        let short = format!("{}...{}", &text[..2 * i], &text[2 * (N - j)..]);
                        if BytesPrimitive::fmt(&x, i, j) != short {
                            return Err(format!("its text shortened to {} and {} bytes is {}", i, j, BytesPrimitive::fmt(&x, i, j)));
                        }
                    }
                }
            }
            // A name.
            let s = "abcdefghij".repeat(8)[..len.min(80)].to_string();
            match no_panic(|| T::of(&s)) {
                Err(_) if len > N => {}
                Ok(x) if len <= N => {
                    let mut want = s.into_bytes();
                    want.resize(N, 0);
                    if x.as_slice() != &want[..] {
                        return Err(format!("made of a name: {:?}", x));
                    }
                }
                r => return Err(format!("made of a name: {:?}", r)),
            }
            Ok(())
        });
    }
    for b in 0..=255u8 {
        c.case(|| format!("{} full of {:02x}", name, b), |c| {
            c.step();
            let x = T::repeat(b);
            if x.as_slice() != &[b; N][..] || x.is_zeros() != (b == 0) || (x == T::zeros()) != (b == 0) || T::N != N {
                return Err(format!("{:?}", x));
            }
            // Exactly the byte strings of zeros are zeros; others differ in one place.
            for i in 0..N {
                let mut a = [0u8; N];
                a[i] = b;
                let y = T::from(a);
                if y.is_zeros() != (b == 0) || (y == x) != (b == 0) {
                    return Err(format!("{:?}", y));
                }
                if (hash(&y) == hash(&T::zeros())) != (b == 0) {
                    return Err("hashes don't tell them apart".into());
                }
            }
            Ok(())
        });
    }
}

fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------------------
// Sections and templates

const KINDS: [SectionKind; 7] =
    [SectionKind::Code, SectionKind::Data, SectionKind::Ctors, SectionKind::Header, SectionKind::Deploy, SectionKind::Schema, SectionKind::Api];

fn section(kind: usize, variant: u8) -> Section {
    match kind {
        0 => CodeSection::new_fixed(vec![variant], variant as u32).into(),
        1 => DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(variant as u32, &[1 + variant as u32]))).into(),
        2 => CtorsSection::new(vec![format!("c{}", variant)]).into(),
        3 => header(variant).into(),
        4 => deployment(variant).into(),
        5 => SchemaSection::new().into(),
        _ => (ApiSection {}).into(),
    }
}

fn header(variant: u8) -> HeaderSection {
    HeaderSection::new(variant as u32, format!("n{}", variant), format!("d{}", variant))
}

fn deployment(variant: u8) -> DeploySection {
    DeploySection::new(TransactionId::repeat(variant), Layer(variant as u64), Address::repeat(variant + 1), TemplateAddr::repeat(variant + 2))
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum SecOp {
    Insert(usize, u8),
    Take(usize),
    TryTake(usize),
    RemoveNoncore,
}

fn same_sections(got: &Sections, want: &BTreeMap<usize, Section>) -> Result<(), String> {
    if got.len() != want.len() || got.iter().count() != want.len() || got.kinds().count() != want.len() {
        return Err(format!("{} sections (iterating: {}), not {}", got.len(), got.iter().count(), want.len()));
    }
    for (k, kind) in KINDS.iter().enumerate() {
        let w = want.get(&k);
        if got.try_get(*kind) != w || got.contains(*kind) != w.is_some() || got.kinds().any(|x| x == kind) != w.is_some() || got.iter().any(|s| Some(s) == w) != w.is_some() {
            return Err(format!("{:?} is {:?}, not {:?}", kind, got.try_get(*kind), w));
        }
        let g = no_panic(|| got.get(*kind).clone());
        match (g, w) {
            (Ok(s), Some(w)) if s == *w && s.kind() == *kind => {}
            (Err(_), None) => {}
            _ => return Err(format!("getting {:?}", kind)),
        }
    }
    Ok(())
}

fn sections(c: &mut Ctx) {
    let mut ops = vec![SecOp::RemoveNoncore];
    for k in 0..5 {
        ops.push(SecOp::Insert(k, 1));
        ops.push(SecOp::TryTake(k));
    }
    ops.push(SecOp::Insert(0, 2));
    ops.push(SecOp::Insert(3, 2));
    ops.push(SecOp::Insert(5, 1));
    ops.push(SecOp::Insert(6, 1));
    ops.push(SecOp::Take(3));
    ops.push(SecOp::Take(1));
    let depth = if c.thorough() { 5 } else { 4 };
    for full in [false, true] {
        sequences(ops.len(), depth, &mut |v| {
            let s: Vec<SecOp> = v.iter().map(|i| ops[*i]).collect();
            c.case(
                || format!("sections ({}): {:?}", if full { "of a template" } else { "none" }, s),
                |c| {
                    let mut got = Sections::with_capacity(s.len());
                    let mut want: BTreeMap<usize, Section> = BTreeMap::new();
                    if full {
                        for k in 0..5 {
                            got.insert(section(k, 7));
                            want.insert(k, section(k, 7));
                        }
                    }
                    for op in &s {
                        c.step();
                        match op {
                            SecOp::Insert(k, v) => {
                                got.insert(section(*k, *v));
                                want.insert(*k, section(*k, *v));
                            }
                            SecOp::TryTake(k) => {
                                if got.try_take(KINDS[*k]) != want.remove(k) {
                                    return Err(format!("{:?}: took something else", op));
                                }
                            }
                            SecOp::Take(k) => match (no_panic(|| got.take(KINDS[*k])), want.remove(k)) {
                                (Ok(a), Some(b)) if a == b => {}
                                (Err(_), None) => {}
                                (a, b) => return Err(format!("{:?}: took {:?}, not {:?}", op, a, b)),
                            },
                            SecOp::RemoveNoncore => {
                                // Only for templates.
                                if !(0..3).all(|k| want.contains_key(&k)) {
                                    continue;
                                }
                                let rest = got.remove_noncore();
                                let noncore = want.split_off(&3);
                                same_sections(&rest, &noncore).map_err(|e| format!("the non-core ones: {}", e))?;
                            }
                        }
                        same_sections(&got, &want)?;
                    }
                    c.state(&want.keys().collect::<Vec<_>>());
                    Ok(())
                },
            );
        });
    }
    // Code with any flags.
    let bits: Vec<u64> = [0, 1, 2, 7, 8, 31, 32, 62, 63].iter().map(|i| 1u64 << i).collect();
    for mask in 0..1usize << bits.len() {
        let flags = bits.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).fold(0, |a, (_, b)| a | b);
        c.case(|| format!("code with the flags {:x}", flags), |c| {
            c.step();
            let s = CodeSection::new(CodeKind::Wasm, vec![1, 2], flags, GasMode::Fixed, 3);
            let exec = flags & CodeSection::exec_flags() != 0;
            if s.flags() != flags || s.is_exec() != exec || !s.is_fixed_gas() || s.code() != [1, 2] || s.svm_version() != 3 {
                return Err(format!("flags {:x}, can run: {}", s.flags(), s.is_exec()));
            }
            Ok(())
        });
    }
    // Building templates.
    let steps: Vec<(u8, Option<u8>)> = vec![(0, Some(1)), (0, Some(2)), (0, None), (1, Some(1)), (1, Some(2)), (1, None)];
    sequences(steps.len(), 4, &mut |v| {
        let s: Vec<(u8, Option<u8>)> = v.iter().map(|i| steps[*i]).collect();
        c.case(|| format!("a template with {:?}", s), |c| {
            let code = CodeSection::new_fixed(vec![1, 2, 3], 4);
            let data = DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(2, &[3, 4])));
            let ctors = CtorsSection::new(vec!["a".into(), "b".into(), "".into()]);
            let mut want: BTreeMap<usize, Section> = BTreeMap::new();
            want.insert(0, code.clone().into());
            want.insert(1, data.clone().into());
            want.insert(2, ctors.clone().into());
            let mut t = Template::new(code.clone(), data.clone(), ctors.clone());
            let (mut h, mut d) = (None, None);
            for (what, v) in &s {
                c.step();
                if *what == 0 {
                    t = t.with_header(v.map(header));
                    h = v.map(header);
                    match v {
                        Some(v) => want.insert(3, header(*v).into()),
                        None => want.remove(&3),
                    };
                } else {
                    t = t.with_deploy(v.map(deployment));
                    d = v.map(deployment);
                    match v {
                        Some(v) => want.insert(4, deployment(*v).into()),
                        None => want.remove(&4),
                    };
                }
                same_sections(t.sections(), &want)?;
            }
            if t.code() != [1, 2, 3] || *t.code_section() != code || *t.data_section() != data || *t.ctors_section() != ctors {
                return Err("the mandatory sections changed".into());
            }
            if t.fixed_layout() != data.layouts()[0].as_fixed() {
                return Err("the layout changed".into());
            }
            for (name, is) in [("a", true), ("b", true), ("", true), ("c", false), ("ab", false), ("A", false)] {
                if t.is_ctor(name) != is {
                    return Err(format!("is {} a constructor?", name));
                }
            }
            if no_panic(|| t.header_section().clone()).ok() != h {
                return Err("the header is wrong".into());
            }
            if no_panic(|| t.deploy_section().clone()).ok() != d || no_panic(|| t.template_addr().clone()).ok() != d.map(|d| d.template().clone()) {
                return Err("the deployment is wrong".into());
            }
            for kind in KINDS.iter() {
                if t.contains(*kind) != t.sections().contains(*kind) || t.try_get(*kind) != t.sections().try_get(*kind) {
                    return Err(format!("{:?} differs", kind));
                }
            }
            Ok(())
        });
    });
}

// ---------------------------------------------------------------------------
// Layouts, Wasm values, hashes, logs

fn layouts(c: &mut Ctx) {
    let sizes = [0u32, 1, 2, 31, 32, 33, 65_535];
    for first in [0u32, 1, 7, 65_535, u32::MAX - 4] {
        for len in 0..=4usize {
            product(&vec![sizes.len(); len], &mut |v| {
                let s: Vec<u32> = v.iter().map(|i| sizes[*i]).collect();
                c.case(|| format!("a layout of {:?} from {}", s, first), |c| {
                    c.steps(1 + len as u64);
                    c.state(&(first, &s));
                    let l = FixedLayout::from_byte_sizes(first, &s);
                    let mut offset = 0;
                    let mut want = vec![];
                    for (i, n) in s.iter().enumerate() {
                        want.push(RawVar::new(first + i as u32, offset, *n));
                        offset += n;
                    }
                    if l.iter().collect::<Vec<_>>() != want || l.len() != len || l.is_empty() != (len == 0) {
                        return Err(format!("{:?}", l));
                    }
                    if l.try_first() != want.first().map(|v| v.id) {
                        return Err(format!("the first is {:?}", l.try_first()));
                    }
                    if FixedLayout::new(want.clone()) != l {
                        return Err("differs from the one made of its variables".into());
                    }
                    for v in &want {
                        if l.get(v.id) != v || l.try_get(v.id) != Some(v) {
                            return Err(format!("variable {} is {:?}", v.id, l.get(v.id)));
                        }
                    }
                    for id in [first.wrapping_sub(1), first.wrapping_add(len as u32), 0, u32::MAX] {
                        if !want.iter().any(|v| v.id == id) && no_panic(|| *l.get(id)).is_ok() {
                            return Err(format!("has a variable {}", id));
                        }
                    }
                    Ok(())
                });
            });
        }
    }
}

fn small_values(c: &mut Ctx) {
    for b in 0..=255u8 {
        c.case(|| format!("Wasm type {}", b), |c| {
            c.step();
            match (b, WasmType::try_from(b)) {
                (0, Ok(WasmType::I32)) | (1, Ok(WasmType::I64)) => {}
                (_, Err(WasmTypeError::UnsupportedType(x))) if b > 1 && x == b => {}
                (_, r) => return Err(format!("{:?}", r)),
            }
            if let Ok(t) = WasmType::try_from(b) {
                if u8::from(t) != b {
                    return Err(format!("{:?} is {}", t, u8::from(t)));
                }
            }
            Ok(())
        });
    }
    for s in 0..64u32 {
        for n in [(1u64 << s) - 1, 1 << s, (1 << s) + 1, u64::MAX - (1 << s)] {
            c.case(|| format!("Wasm values of {}", n), |c| {
                c.steps(2);
                c.state(&n);
                let a = WasmValue::from((WasmType::I64, n));
                if a != WasmValue::I64(n) || a.ty() != WasmType::I64 || a.as_i64() != Some(n) || a.as_i32().is_some() || u64::from(a) != n {
                    return Err("64 bits".into());
                }
                let b = WasmValue::from((WasmType::I32, n));
                if b != WasmValue::I32(n as u32) || b.ty() != WasmType::I32 || b.as_i32() != Some(n as u32) || b.as_i64().is_some() || u64::from(b) != n & 0xFFFF_FFFF {
                    return Err("32 bits".into());
                }
                if Layer(n) != Layer::from(n) || u64::from(Layer(n)) != n || (n < u64::MAX && !(Layer(n) < Layer(n + 1))) {
                    return Err("a layer".into());
                }
                Ok(())
            });
        }
    }
    // Hashing in parts.
    let data: Vec<u8> = (0..2100usize).map(|i| (i % 251) as u8).collect();
    let cuts = [0usize, 1, 31, 32, 63, 64, 65, 1023, 1024, 1025, 2048, 2049, 2100];
    product(&[cuts.len(), cuts.len(), cuts.len()], &mut |v| {
        let (a, b, n) = (cuts[v[0]], cuts[v[1]], cuts[v[2]]);
        if a > b || b > n {
            return;
        }
        c.case(|| format!("the hash of {} bytes cut at {} and {}", n, a, b), |c| {
            c.steps(3);
            c.state(&(a, b, n));
            let whole = *blake3::hash(&data[..n]).as_bytes();
            if <Blake3Hasher as Hasher>::hash(&data[..n]) != whole {
                return Err("of the whole".into());
            }
            let mut h = Blake3Hasher::default();
            h.update(&data[..a]).update(&data[a..b]);
            h.update(&data[b..n]);
            if Hasher::finalize(h) != whole {
                return Err("of the parts".into());
            }
            use std::hash::Hasher as _;
            let mut h = Blake3Hasher::default();
            h.write(&data[..a]);
            h.write(&data[a..n]);
            let mut first = [0; 8];
            first.copy_from_slice(&whole[..8]);
            if h.finish() != u64::from_be_bytes(first) {
                return Err("shortened".into());
            }
            Ok(())
        });
    });
    // The text of logs.
    const B: [u8; 12] = [0, b'a', b'"', 0x7F, 0x80, 0xBF, 0xC3, 0xA9, 0xE2, 0xED, 0xF0, 0xFF];
    for len in 0..=4usize {
        product(&vec![B.len(); len], &mut |v| {
            let bytes: Vec<u8> = v.iter().map(|i| B[*i]).collect();
            c.case(|| format!("a log of {}", hex(&bytes)), |c| {
                c.step();
                let log = ReceiptLog::new(bytes.clone());
                if log.as_bytes() != &bytes[..] {
                    return Err("its bytes changed".into());
                }
                let text = no_panic(|| format!("{:?}", log))?;
                if std::str::from_utf8(text.as_bytes()).is_err() {
                    return Err(format!("its text isn't UTF-8: {}", hex(text.as_bytes())));
                }
                if let Ok(s) = std::str::from_utf8(&bytes) {
                    if !text.contains(&format!("{:?}", s)) {
                        return Err(format!("its text is {}", text));
                    }
                }
                c.state(&text);
                Ok(())
            });
        });
    }
}

pub fn v26(c: &mut Ctx) {
    queries(c);
    gas(c);
    primitive::<Address, 20>(c, "an account's address");
    primitive::<TemplateAddr, 20>(c, "a template's address");
    primitive::<State, 32>(c, "a state");
    primitive::<TransactionId, 32>(c, "a transaction's id");
    sections(c);
    layouts(c);
    small_values(c);
}
