//! V13: the JSON forms of transactions, input data and receipts.

use serde_json::{json, Map, Value as Json};
use svm_codec::api::json as api;
use svm_codec::api::json::JsonError;
use svm_codec::api::wasm;
use svm_codec::Codec;
use vh_core::{no_panic, sequences, Ctx};

use crate::abi::{self, dec, enc, signed, Val, INTS};
use crate::codec::{self, w_spawn, w_tx, R};

// ---------------------------------------------------------------- reference

/// What encoding a document must give.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Is(Vec<u8>),
    /// That, or a refusal.
    Maybe(Vec<u8>),
    /// Not said.
    Any,
    No,
}

fn up(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02X}", x)).collect()
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    let d: Option<Vec<u8>> = s.chars().map(|c| c.to_digit(16).map(|d| d as u8)).collect();
    let d = d?;
    if d.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    Some(d.chunks(2).map(|p| p[0] << 4 | p[1]).collect())
}

fn hex20(v: &Json) -> Option<[u8; 20]> {
    let b = unhex(v.as_str()?)?;
    let mut a = [0; 20];
    if b.len() != 20 {
        return None;
    }
    a.copy_from_slice(&b);
    Some(a)
}

fn int_name(bytes: u8, sign: bool) -> String {
    format!("{}{}", if sign { "i" } else { "u" }, bytes as u32 * 8)
}

fn ref_prim(ty: &str, v: &Json) -> Option<Val> {
    // A number with a fraction or an exponent is no integer.
    let int = v.as_i64().map(|n| n as i128).or(v.as_u64().map(|n| n as i128));
    match ty {
        "bool" => v.as_bool().map(Val::Bool),
        "address" => hex20(v).map(Val::Addr),
        "amount" => int.filter(|n| *n >= 0).map(|n| Val::Amount(n as u64)),
        _ => {
            let (b, s) = INTS.into_iter().find(|(b, s)| int_name(*b, *s) == ty)?;
            let bits = 8 * b as u32;
            let (lo, hi) = if s { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
            let n = int.filter(|n| *n >= lo && *n <= hi)?;
            Some(Val::Int(b, s, (n as u64) & if b == 8 { u64::MAX } else { (1 << bits) - 1 }))
        }
    }
}

fn ref_value(ty: &Json, v: &Json, depth: usize) -> Want {
    match ty {
        Json::String(s) => ref_prim(s, v).map_or(Want::No, |v| Want::Is(enc(&v))),
        Json::Array(t) if t.len() == 1 => {
            let items = match v.as_array() {
                Some(i) => i,
                None => return if known_type(&t[0]) { Want::No } else { Want::Any },
            };
            let n = items.len();
            let all: Vec<Want> = items.iter().map(|i| ref_value(&t[0], i, depth + 1)).collect();
            if n > 10 || !known_type(&t[0]) {
                return if n > 10 { Want::No } else { Want::Any };
            }
            let head = vec![if n < 8 { (n as u8) << 4 | 6 } else { (n as u8 - 8) << 4 | 7 }];
            match join(head, &all) {
                // Arrays in arrays can't be decoded again.
                Want::Is(b) if depth > 0 => Want::Maybe(b),
                w => w,
            }
        }
        // A name may also be written as an object.
        Json::Object(_) => Want::Any,
        _ => Want::No,
    }
}

/// Is this surely a type? What an array of no items may be declared as isn't said.
fn known_type(ty: &Json) -> bool {
    match ty {
        Json::String(s) => TYPES.contains(&s.as_str()),
        Json::Array(t) => t.len() == 1 && known_type(&t[0]),
        _ => false,
    }
}

fn join(mut bytes: Vec<u8>, parts: &[Want]) -> Want {
    let (mut any, mut maybe) = (false, false);
    for p in parts {
        match p {
            Want::No => return Want::No,
            Want::Any => any = true,
            Want::Maybe(b) => {
                maybe = true;
                bytes.extend(b)
            }
            Want::Is(b) => bytes.extend(b),
        }
    }
    match (any, maybe) {
        (true, _) => Want::Any,
        (_, true) => Want::Maybe(bytes),
        _ => Want::Is(bytes),
    }
}

fn ref_input(doc: &Json) -> Want {
    let get = |n: &str| doc.as_object().and_then(|o| o.get(n)).and_then(|v| v.as_array());
    match (get("abi"), get("data")) {
        (Some(a), Some(d)) if a.len() == d.len() => {
            let all: Vec<Want> = a.iter().zip(d).map(|(t, v)| ref_value(t, v, 0)).collect();
            join(vec![], &all)
        }
        _ => Want::No,
    }
}

/// The input data of a transaction: as text, or as values.
fn ref_calldata(v: Option<&Json>) -> Want {
    let w = match v {
        Some(Json::String(s)) => unhex(s).map_or(Want::No, Want::Is),
        Some(d @ Json::Object(_)) => ref_input(d),
        Some(Json::Array(_)) => Want::Any,
        _ => Want::No,
    };
    match w {
        Want::Is(b) | Want::Maybe(b) if b.len() > 255 => Want::No,
        w => w,
    }
}

fn blob8(w: Want) -> Want {
    let f = |b: Vec<u8>| [vec![b.len() as u8], b].concat();
    match w {
        Want::Is(b) => Want::Is(f(b)),
        Want::Maybe(b) => Want::Maybe(f(b)),
        w => w,
    }
}

fn or_no(b: Option<Vec<u8>>) -> Want {
    b.map_or(Want::No, Want::Is)
}

fn ref_version(v: Option<&Json>) -> Want {
    or_no(v.and_then(|v| v.as_u64()).filter(|n| *n < 65536).map(|n| vec![(n >> 8) as u8, n as u8]))
}

fn ref_text(v: Option<&Json>) -> Want {
    blob8(or_no(v.and_then(|v| v.as_str()).filter(|s| s.len() < 256).map(|s| s.as_bytes().to_vec())))
}

fn ref_call(doc: &Json) -> Want {
    let f = |n: &str| doc.get(n);
    if !doc.is_object() {
        return Want::No;
    }
    let parts = [
        ref_version(f("version")),
        or_no(f("target").and_then(hex20).map(|a| a.to_vec())),
        ref_text(f("func_name")),
        blob8(ref_calldata(f("verifydata"))),
        blob8(ref_calldata(f("calldata"))),
    ];
    join(vec![], &parts)
}

fn ref_spawn(doc: &Json) -> Want {
    let f = |n: &str| doc.get(n);
    if !doc.is_object() {
        return Want::No;
    }
    let parts = [
        ref_version(f("version")),
        or_no(f("template").and_then(hex20).map(|a| a.to_vec())),
        ref_text(f("name")),
        ref_text(f("ctor_name")),
        blob8(ref_calldata(f("calldata"))),
    ];
    join(vec![], &parts)
}

/// A value as JSON, and its type (or null, if that isn't said).
fn to_json(v: &Val) -> Option<(Json, Json)> {
    Some(match v {
        Val::None | Val::Unit => return None,
        Val::Bool(b) => (json!("bool"), json!(b)),
        Val::Addr(a) => (json!("address"), json!(up(a))),
        Val::Amount(n) => (json!("amount"), json!(n)),
        Val::Int(b, true, n) => (json!(int_name(*b, true)), json!(signed(*b, *n))),
        Val::Int(b, false, n) => (json!(int_name(*b, false)), json!(n)),
        Val::Arr(a) => {
            let items: Option<Vec<(Json, Json)>> = a.iter().map(to_json).collect();
            let items = items?;
            let same = items.windows(2).all(|w| w[0].0 == w[1].0);
            let ty = if same && !items.is_empty() { json!([items[0].0]) } else { Json::Null };
            (ty, Json::Array(items.into_iter().map(|i| i.1).collect()))
        }
    })
}

fn ref_decode_input(mut b: &[u8]) -> Option<Json> {
    let (mut abi, mut data) = (vec![], vec![]);
    while !b.is_empty() {
        let (v, n) = dec(b, false)?;
        let (t, j) = to_json(&v)?;
        abi.push(t);
        data.push(j);
        b = &b[n..];
    }
    Some(json!({ "abi": abi, "data": data }))
}

/// Is `got` what it should be, up to the types that aren't said?
fn same_input(got: &Json, want: &Json) -> bool {
    let types = |j: &Json| j["abi"].as_array().cloned().unwrap_or_default();
    let (g, w) = (types(got), types(want));
    got.as_object().map_or(false, |o| o.len() == 2)
        && got["data"] == want["data"]
        && g.len() == w.len()
        && g.iter().zip(&w).all(|(g, w)| w.is_null() || g == w)
}

fn same_tx(got: &Json, want: &Json) -> bool {
    let (g, w) = match (got.as_object(), want.as_object()) {
        (Some(g), Some(w)) => (g, w),
        _ => return false,
    };
    g.len() == w.len()
        && w.iter().all(|(k, w)| match g.get(k) {
            Some(g) if k == "calldata" || k == "verifydata" => same_input(g, w),
            g => g == Some(w),
        })
}

fn r_text<'a>(r: &mut R<'a>) -> Option<&'a str> {
    let n = r.num(1)? as usize;
    std::str::from_utf8(r.raw(n)?).ok()
}

fn r_blob<'a>(r: &mut R<'a>, w: usize) -> Option<&'a [u8]> {
    let n = r.num(w)? as usize;
    r.raw(n)
}

fn ref_decode_call(b: &[u8]) -> Option<Json> {
    let r = &mut R(b, 0);
    let (version, target, func) = (r.num(2)?, r.raw(20)?, r_text(r)?);
    let (v, c) = (r_blob(r, 1)?, r_blob(r, 1)?);
    Some(json!({
        "version": version, "target": up(target), "func_name": func,
        "verifydata": ref_decode_input(v)?, "calldata": ref_decode_input(c)?,
    }))
}

fn ref_decode_spawn(b: &[u8]) -> Option<Json> {
    let r = &mut R(b, 0);
    let (version, template) = (r.num(2)?, r.raw(20)?);
    let (name, ctor) = (r_text(r)?, r_text(r)?);
    let c = r_blob(r, 1)?;
    Some(json!({
        "version": version, "template": up(template), "name": name, "ctor_name": ctor,
        "calldata": ref_decode_input(c)?,
    }))
}

fn r_logs(r: &mut R) -> Option<Json> {
    let mut v = vec![];
    for _ in 0..r.num(1)? {
        v.push(json!({ "data": String::from_utf8_lossy(r_blob(r, 2)?) }));
    }
    Some(Json::Array(v))
}

const RECEIPTS: [&str; 3] = ["deploy-template", "spawn-account", "call-account"];

fn ref_decode_receipt(b: &[u8]) -> Option<Json> {
    R(b, 0).receipt(None)?;
    let r = &mut R(b, 0);
    let ty = r.num(1)? as usize;
    r.raw(2)?;
    let mut o = Map::new();
    o.insert("type".into(), json!(RECEIPTS[ty]));
    let ok = r.num(1)? == 1;
    o.insert("success".into(), json!(ok));
    let mut put = |k: &str, v: Json| drop(o.insert(k.into(), v));
    if !ok {
        let kind = r.num(1)?;
        put("logs", r_logs(r)?);
        let name = [
            "oog",
            "template-not-found",
            "account-not-found",
            "compilation-failed",
            "instantiation-failed",
            "function-not-found",
            "function-failed",
            "function-not-ctor",
            "function-not-allowed",
            "function-invalid-signature",
        ];
        put("err_type", json!(name[kind as usize]));
        if !matches!(kind, 0 | 2) {
            put("template_addr", json!(up(r.raw(20)?)));
        }
        if !matches!(kind, 0 | 1 | 7) {
            put("account_addr", json!(up(r.raw(20)?)));
        }
        if kind >= 5 {
            put("func", json!(r_text(r)?));
        }
        if matches!(kind, 3 | 4 | 6 | 8) {
            put("message", json!(r_text(r)?));
        }
        return Some(Json::Object(o));
    }
    let gas = |r: &mut R| Some(r.num(8).map(|g| if g == 0 { json!(-1) } else { json!(g) })?);
    if ty == 0 {
        put("addr", json!(up(r.raw(20)?)));
        put("gas_used", gas(r)?);
    } else {
        if ty == 1 {
            put("account", json!(up(r.raw(20)?)));
        }
        put(if ty == 1 { "state" } else { "new_state" }, json!(up(r.raw(32)?)));
        put("returndata", json!(up(r_blob(r, 2)?)));
        put("gas_used", gas(r)?);
        let n = r.num(2)?;
        let mut t = vec![];
        for _ in 0..n {
            t.push(up(r.raw(20)?));
        }
        t.sort();
        t.dedup();
        put("touched_accounts", json!(t));
    }
    put("logs", r_logs(r)?);
    Some(Json::Object(o))
}

fn same_receipt(got: &Json, want: &Json) -> bool {
    // The accounts touched are a set.
    let mut got = got.clone();
    if let Some(t) = got.get_mut("touched_accounts").and_then(|t| t.as_array_mut()) {
        t.sort_by_key(|a| a.to_string());
    }
    &got == want
}

// ---------------------------------------------------------------- checks

type Enc = fn(&str) -> Result<Vec<u8>, JsonError>;
type Dec = fn(&str) -> Result<Json, JsonError>;

/// The bytes of a `{"data": "AB.."}`.
fn unwrap_data(j: Json) -> Option<Vec<u8>> {
    let o = j.as_object()?;
    let s = o.get("data")?.as_str()?;
    (o.len() == 1 && up(&unhex(s)?) == s).then(|| unhex(s))?
}

/// What an encoder says to a text: bytes, or nothing.
fn run_enc(which: usize, text: &str) -> Result<Option<Vec<u8>>, String> {
    let r = no_panic(|| match which {
        0 => api::encode_inputdata(text).map(|j| unwrap_data(j).ok_or("the result isn't {\"data\": HEX}")),
        1 => api::encode_call(text).map(|j| unwrap_data(j).ok_or("the result isn't {\"data\": HEX}")),
        2 => api::encode_call_raw(text).map(Ok),
        _ => api::encode_spawn(text).map(Ok),
    })
    .map_err(|e| format!("encoding {} panics: {}", cut(text), e))?;
    match r {
        Ok(b) => Ok(Some(b?)),
        Err(e) => {
            no_panic(|| e.to_string()).map_err(|p| format!("the error for {} can't be shown: {}", cut(text), p))?;
            Ok(None)
        }
    }
}

fn cut(s: &str) -> String {
    match s.char_indices().nth(400) {
        Some((n, _)) => format!("{}..", &s[..n]),
        None => s.into(),
    }
}

fn judge_enc(c: &mut Ctx, which: usize, doc: &Json) -> Result<Want, String> {
    let text = doc.to_string();
    let want = match which {
        0 => ref_input(doc),
        1 | 2 => ref_call(doc),
        _ => ref_spawn(doc),
    };
    c.step();
    let got = run_enc(which, &text)?;
    let ok = match &want {
        Want::Is(b) => got.as_ref() == Some(b),
        Want::Maybe(b) => got.is_none() || got.as_ref() == Some(b),
        Want::Any => true,
        Want::No => got.is_none(),
    };
    if !ok {
        let show = |b: &Option<Vec<u8>>| b.as_ref().map_or("a refusal".to_string(), |b| cut(&up(b)));
        let want = match &want {
            Want::Is(b) | Want::Maybe(b) => show(&Some(b.clone())),
            _ => "a refusal".into(),
        };
        return Err(format!("encoding {} gives {}, should be {}", cut(&text), show(&got), want));
    }
    if let Some(b) = got {
        c.state(&(which, b));
    }
    Ok(want)
}

const DECS: [(Dec, fn(&[u8]) -> Option<Json>, fn(&Json, &Json) -> bool, &str); 4] = [
    (api::decode_inputdata, ref_decode_input, same_input, "input data"),
    (api::decode_call, ref_decode_call, same_tx, "call"),
    (api::decode_spawn, ref_decode_spawn, same_tx, "spawn"),
    (api::decode_receipt, ref_decode_receipt, same_receipt, "receipt"),
];

fn judge_dec(c: &mut Ctx, which: usize, b: &[u8]) -> Result<(), String> {
    let (f, reference, same, name) = DECS[which];
    c.step();
    let text = json!({ "data": up(b) }).to_string();
    let want = reference(b);
    let got = no_panic(|| f(&text).map_err(|e| e.to_string()).ok()).map_err(|e| format!("decoding the {} {} panics: {}", name, cut(&text), e))?;
    let ok = match (&got, &want) {
        (Some(g), Some(w)) => same(g, w),
        (None, None) => true,
        _ => false,
    };
    if !ok {
        let show = |j: &Option<Json>| j.as_ref().map_or("a refusal".into(), |j| cut(&j.to_string()));
        return Err(format!("decoding the {} {} gives {}, should be {}", name, cut(&text), show(&got), show(&want)));
    }
    if let Some(w) = want {
        c.state(&(which, w.to_string()));
    }
    Ok(())
}

/// Encodes a document and decodes the result.
fn round(c: &mut Ctx, which: usize, doc: &Json) -> Result<(), String> {
    match judge_enc(c, which, doc)? {
        Want::Is(b) => judge_dec(c, [0, 1, 1, 2][which], &b),
        _ => Ok(()),
    }
}

const TYPES: [&str; 11] = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "amount", "address"];

fn input(parts: &[(Json, Json)]) -> Json {
    let (a, d): (Vec<_>, Vec<_>) = parts.iter().cloned().unzip();
    json!({ "abi": a, "data": d })
}

fn junk() -> Vec<Json> {
    let a = up(&abi::addr(5));
    vec![
        Json::Null,
        json!(true),
        json!(0),
        json!(-1),
        json!(255),
        json!(256),
        json!(65535),
        json!(65536),
        json!(1.5),
        json!(1.0),
        json!(u64::MAX),
        json!(i64::MIN),
        json!(1e300),
        json!(""),
        json!("zz"),
        json!("ABC"),
        json!("ab"),
        json!("u8"),
        json!("U8"),
        json!("vec"),
        json!("none"),
        json!(a),
        json!(a.to_lowercase()),
        json!(format!("0x{}", a)),
        json!(a[2..]),
        json!(format!("{}00", a)),
        json!("é".repeat(20)),
        json!("F".repeat(510)),
        json!("F".repeat(512)),
        json!("x".repeat(256)),
        json!([]),
        json!([[]]),
        json!(["u8"]),
        json!(["u8", "u8"]),
        json!([["u8"]]),
        json!([1, 2]),
        json!([1, null]),
        json!([[1]]),
        json!({}),
        json!({ "u8": null }),
        json!({ "abi": [], "data": [] }),
        json!({ "abi": ["u8"], "data": [] }),
        json!({ "abi": [], "data": [1] }),
        json!({ "abi": ["u8"], "data": [1] }),
        json!({ "abi": [["u8"]], "data": [[1, 2]] }),
        json!({ "abi": [["u8"]], "data": [vec![0; 11]] }),
        json!({ "abi": "", "data": "" }),
        json!({ "data": "00" }),
    ]
}

/// The places in a document.
fn paths(j: &Json, at: Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    let mut go = |k: String, v: &Json| {
        let mut p = at.clone();
        p.push(k);
        paths(v, p, out);
    };
    match j {
        Json::Object(o) => o.iter().for_each(|(k, v)| go(k.clone(), v)),
        Json::Array(a) => a.iter().enumerate().for_each(|(i, v)| go(i.to_string(), v)),
        _ => (),
    }
}

fn at<'a>(j: &'a mut Json, path: &[String]) -> &'a mut Json {
    path.iter().fold(j, |j, k| match j {
        Json::Object(o) => o.get_mut(k).unwrap(),
        Json::Array(a) => &mut a[k.parse::<usize>().unwrap()],
        _ => unreachable!(),
    })
}

/// The document with something else at `path`, or without it.
fn changed(doc: &Json, path: &[String], with: Option<&Json>) -> Option<Json> {
    let mut d = doc.clone();
    match (with, path.split_last()) {
        (Some(w), _) => *at(&mut d, path) = w.clone(),
        (None, None) => return None,
        (None, Some((k, p))) => match at(&mut d, p) {
            Json::Object(o) => drop(o.remove(k)),
            Json::Array(a) => drop(a.remove(k.parse::<usize>().unwrap())),
            _ => unreachable!(),
        },
    }
    Some(d)
}

fn call_doc(version: u16, func: &str, v: Json, c: Json) -> Json {
    json!({ "version": version, "target": up(&abi::addr(7)), "func_name": func, "verifydata": v, "calldata": c })
}

fn spawn_doc(version: u16, name: &str, ctor: &str, c: Json) -> Json {
    json!({ "version": version, "template": up(&abi::addr(9)), "name": name, "ctor_name": ctor, "calldata": c })
}

fn bases() -> Vec<(usize, Json)> {
    let a = up(&abi::addr(5));
    let full = json!({ "abi": ["i32", ["u8"], "address", "bool"], "data": [-7, [1, 2, 255], a, true] });
    let small = json!({ "abi": ["u8"], "data": [10] });
    vec![
        (0, full.clone()),
        (0, json!({ "abi": [["address"], "amount", "u64"], "data": [[a, a], u64::MAX, 3] })),
        (1, call_doc(3, "do_work", full.clone(), small.clone())),
        (2, call_doc(0, "f", small.clone(), json!("1210"))),
        (1, call_doc(65535, "", json!(""), json!({ "abi": [], "data": [] }))),
        (3, spawn_doc(1, "My Account", "init", full)),
        (3, spawn_doc(0, "é", "", json!(""))),
    ]
}

/// All strings one change away from `b`.
fn near(c: &mut Ctx, which: usize, b: &[u8], values: &[u8]) -> Result<(), String> {
    for n in 0..b.len() {
        judge_dec(c, which, &b[..n])?;
    }
    let mut m = b.to_vec();
    for i in 0..b.len() {
        for v in values {
            for x in [*v, b[i] ^ *v, b[i].wrapping_add(*v)] {
                m[i] = x;
                judge_dec(c, which, &m)?;
            }
        }
        m[i] = b[i];
    }
    m.push(0);
    judge_dec(c, which, &m)?;
    for i in 0..b.len() {
        let mut m = b.to_vec();
        m.remove(i);
        judge_dec(c, which, &m)?;
        let mut m = b.to_vec();
        m.insert(i, b[i]);
        judge_dec(c, which, &m)?;
    }
    Ok(())
}

pub fn v13(ctx: &mut Ctx) {
    inputs(ctx);
    documents(ctx);
    binaries(ctx);
    buffers(ctx);
}

fn inputs(ctx: &mut Ctx) {
    // Every type with every number.
    let nums = abi::numbers(8);
    for ty in TYPES {
        for (k, chunk) in nums.chunks(200).enumerate() {
            ctx.case(
                || format!("numbers {} as {}", k, ty),
                |c| {
                    for n in chunk {
                        for v in [json!(n), json!(*n as i64)] {
                            round(c, 0, &input(&[(json!(ty), v)]))?;
                        }
                    }
                    Ok(())
                },
            );
        }
        // Every type with everything else, alone and in an array.
        ctx.case(
            || format!("junk as {}", ty),
            |c| {
                for v in junk() {
                    round(c, 0, &input(&[(json!(ty), v.clone())]))?;
                    round(c, 0, &input(&[(json!([ty]), v.clone())]))?;
                    round(c, 0, &input(&[(json!([ty]), json!([v]))]))?;
                    round(c, 0, &input(&[(json!([[ty]]), json!([[v]]))]))?;
                }
                Ok(())
            },
        );
    }
    // Anything as a type.
    for (k, ty) in junk().into_iter().enumerate() {
        ctx.case(
            || format!("type {}", k),
            |c| {
                for v in junk() {
                    round(c, 0, &input(&[(ty.clone(), v.clone())]))?;
                    round(c, 0, &input(&[(json!([ty]), v.clone())]))?;
                    round(c, 0, &input(&[(json!([ty]), json!([v]))]))?;
                }
                Ok(())
            },
        );
    }
    // Several values.
    let some: Vec<(Json, Json)> = abi::some_values().iter().filter_map(to_json).collect();
    for (i, a) in some.iter().enumerate() {
        ctx.case(
            || format!("pairs from {}", i),
            |c| {
                for b in &some {
                    round(c, 0, &input(&[a.clone(), b.clone()]))?;
                    round(c, 0, &input(&[(json!([a.0]), json!([a.1])), b.clone()]))?;
                    round(c, 0, &input(&[(json!([a.0]), json!([a.1, b.1]))]))?;
                }
                Ok(())
            },
        );
        if ctx.thorough() {
            ctx.case(
                || format!("triples from {}", i),
                |c| {
                    for b in &some {
                        for d in &some {
                            round(c, 0, &input(&[a.clone(), b.clone(), d.clone()]))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // Arrays of every length, their items all the same or all different.
    for ty in TYPES {
        let of: Vec<Json> = some.iter().filter(|s| s.0 == json!(ty)).map(|s| s.1.clone()).collect();
        ctx.case(
            || format!("arrays of {}", ty),
            |c| {
                for n in 0..=13 {
                    for k in 0..of.len() {
                        let cycle: Vec<Json> = (0..n).map(|i| of[(i + k) % of.len()].clone()).collect();
                        let same: Vec<Json> = (0..n).map(|_| of[k].clone()).collect();
                        for items in [cycle, same] {
                            let a = (json!([ty]), json!(items));
                            round(c, 0, &input(&[a.clone()]))?;
                            round(c, 0, &input(&[(json!("u8"), json!(1)), a, (json!("bool"), json!(true))]))?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // All short strings of bytes, and those near to values.
    for b in 0..=255u8 {
        ctx.case(
            || format!("bytes {:02x}", b),
            |c| {
                judge_dec(c, 0, &[b])?;
                for d in 0..=255u8 {
                    judge_dec(c, 0, &[b, d])?;
                    judge_dec(c, 0, &[b, d, 1, 0x12, 7, 0x50, 3, 4, 5])?;
                    if c.thorough() {
                        for e in 0..=255u8 {
                            judge_dec(c, 0, &[b, d, e])?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    ctx.case(
        || "no bytes".into(),
        |c| {
            judge_dec(c, 0, &[])?;
            for (data, ok) in [("ab", true), ("aB10", true), ("a", false), ("0x10", false), (" 10", false), ("1g", false), ("é0", false)] {
                for (f, _, _, name) in DECS {
                    let r = no_panic(|| f(&json!({ "data": data }).to_string()).map_err(|_| ())).map_err(|e| format!("{} {:?} panics: {}", name, data, e))?;
                    c.step();
                    if !ok && r.is_ok() {
                        return Err(format!("{}: {:?} is accepted", name, data));
                    }
                }
            }
            // Digits in lower case stand for the same.
            let r = api::decode_inputdata(&json!({ "data": "12aB52ffFF" }).to_string()).ok();
            if !r.as_ref().map_or(false, |r| same_input(r, &json!({ "abi": ["u8", "u16"], "data": [0xAB, 0xFFFF] }))) {
                return Err(format!("12aB52ffFF decodes to {:?}", r));
            }
            Ok(())
        },
    );
}

fn documents(ctx: &mut Ctx) {
    let junk = junk();
    for (k, (which, doc)) in bases().into_iter().enumerate() {
        let mut all = vec![];
        paths(&doc, vec![], &mut all);
        ctx.case(|| format!("document {}", k), |c| round(c, which, &doc));
        for p in &all {
            ctx.case(
                || format!("document {}, {} changed", k, p.join("/")),
                |c| {
                    for with in junk.iter().map(Some).chain([None]) {
                        if let Some(d) = changed(&doc, p, with) {
                            round(c, which, &d)?;
                        }
                    }
                    Ok(())
                },
            );
        }
        // Two places at once.
        let top: Vec<&Vec<String>> = all.iter().filter(|p| p.len() == 1).collect();
        for (i, p) in top.iter().enumerate() {
            for q in &top[..i] {
                ctx.case(
                    || format!("document {}, {} and {} changed", k, p.join("/"), q.join("/")),
                    |c| {
                        for a in junk.iter().map(Some).chain([None]) {
                            let d = changed(&doc, p, a).unwrap();
                            for b in junk.iter().map(Some).chain([None]) {
                                round(c, which, &changed(&d, q, b).unwrap())?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
        // Texts that end too early, or aren't JSON.
        ctx.case(
            || format!("document {}, texts", k),
            |c| {
                let text = doc.to_string();
                for n in 0..text.len() {
                    if !text.is_char_boundary(n) {
                        continue;
                    }
                    let mut bad = vec![text[..n].to_string()];
                    for x in ["\u{0}", "é", "'", "]"] {
                        bad.push(format!("{}{}", &text[..n], x));
                    }
                    for b in bad {
                        c.step();
                        if run_enc(which, &b)?.is_some() {
                            return Err(format!("{} is accepted", b));
                        }
                    }
                }
                for ws in [" ", "\n\t"] {
                    let b = format!("{}{}{}", ws, text, ws);
                    if run_enc(which, &b)? != run_enc(which, &text)? {
                        return Err(format!("space around {} matters", text));
                    }
                }
                Ok(())
            },
        );
    }
    // Names and input data of every length.
    for n in 0..=258usize {
        ctx.case(
            || format!("lengths of {}", n),
            |c| {
                let name = "x".repeat(n);
                let data = up(&(0..n).map(|i| if i % 2 == 0 { 0x00 } else { 0x10 }).collect::<Vec<_>>());
                let flags: Vec<Json> = (0..n).map(|i| json!(i % 2 == 1)).collect();
                let vals = json!({ "abi": vec!["bool"; n], "data": flags });
                let none = json!("");
                for d in [json!(data), json!(data.to_lowercase()), vals] {
                    round(c, 1, &call_doc(0, "f", d.clone(), none.clone()))?;
                    round(c, 2, &call_doc(0, "f", none.clone(), d.clone()))?;
                    round(c, 3, &spawn_doc(0, "n", "c", d))?;
                }
                round(c, 1, &call_doc(0, &name, none.clone(), none.clone()))?;
                round(c, 3, &spawn_doc(0, &name, "c", none.clone()))?;
                round(c, 3, &spawn_doc(0, "n", &name, none.clone()))?;
                if n % 2 == 1 {
                    round(c, 1, &call_doc(0, &format!("{}é", &name[1..]), none.clone(), none.clone()))?;
                    round(c, 3, &spawn_doc(0, &"é".repeat(n / 2), &"é".repeat(n / 2), none))?;
                }
                Ok(())
            },
        );
    }
    // Characters that JSON writes in another way.
    ctx.case(
        || "characters".into(),
        |c| {
            for s in ["\"", "\\", "\n", "\u{1}", "\u{7f}", "\u{2028}", "日本", "𝄞", "\u{10FFFF}", "a\0b", "{\"a\":1}"] {
                round(c, 1, &call_doc(1, s, json!(""), json!("")))?;
                round(c, 3, &spawn_doc(1, s, s, json!("")))?;
            }
            Ok(())
        },
    );
    let versions = ctx.pick((0..=65535u32).step_by(251).collect::<Vec<_>>(), (0..=65535).collect());
    for (k, vs) in versions.chunks(1024).enumerate() {
        ctx.case(
            || format!("versions {}", k),
            |c| {
                for v in vs {
                    round(c, 1, &call_doc(*v as u16, "f", json!(""), json!("")))?;
                    round(c, 3, &spawn_doc(*v as u16, "f", "g", json!("")))?;
                }
                Ok(())
            },
        );
    }
}

fn binaries(ctx: &mut Ctx) {
    use crate::codec::{addr, errors, failed, state, strings, taddr, GASES};
    let values: Vec<u8> = ctx.pick(vec![0, 1, 2, 0x10, 0x12, 0x7F, 0x80, 0xFF], (0..=255).collect());
    let in1 = enc(&Val::Arr(vec![Val::Int(4, true, 0xFFFF_FFF0), Val::Int(4, true, 5)]));
    let in2 = [enc(&Val::Addr(abi::addr(3))), enc(&Val::Amount(1 << 40)), enc(&Val::Bool(true))].concat();
    let txs = vec![
        (1, w_tx(0x0102, &addr(2), "fn", &in1, &in2)),
        (1, w_tx(0, &addr(0), "", &[], &[])),
        (2, w_spawn(0x0102, &taddr(2), "name", "ctor", &in1)),
        (2, w_spawn(1, &taddr(1), "é", "", &in2)),
        (0, in1),
        (0, in2),
    ];
    for (k, (which, b)) in txs.iter().enumerate() {
        ctx.case(|| format!("binary {}", k), |c| near(c, *which, b, &values));
    }
    let strs = strings();
    for (k, s) in strs.iter().enumerate() {
        ctx.case(
            || format!("string {}", k),
            |c| {
                for t in &strs {
                    judge_dec(c, 1, &w_tx(7, &addr(3), s, &[0x00], &[0x10]))?;
                    judge_dec(c, 2, &w_spawn(7, &taddr(3), s, t, &[0x00]))?;
                    for (_, e, _, _) in errors(2, 3, s, t) {
                        for ty in 0..3 {
                            judge_dec(c, 3, &failed(ty, &e, &[]).encode_to_vec())?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    for (k, b) in codec::receipt_seeds().iter().enumerate() {
        ctx.case(|| format!("receipt {}", k), |c| near(c, 3, b, &values));
    }
    let logs: Vec<Vec<Vec<u8>>> = codec::log_sets()
        .into_iter()
        .chain([
            vec!["é日𝄞\"\\\n\0".as_bytes().to_vec()],
            vec![b"ok \xFF\xFE ok".to_vec(), b"\xC3".to_vec(), b"\xED\xA0\x80".to_vec()],
        ])
        .collect();
    for (k, l) in logs.iter().enumerate() {
        ctx.case(
            || format!("logs {}", k),
            |c| {
                for t in codec::touched_sets().iter().take(7) {
                    for ret in [vec![], vec![0xAB], codec::bytes(3, 65535)] {
                        judge_dec(c, 3, &codec::call_receipt(&state(2), &ret, Some(3), t, l).1)?;
                        judge_dec(c, 3, &codec::spawn_receipt(&addr(4), &state(2), &ret, Some(3), t, l).1)?;
                    }
                }
                judge_dec(c, 3, &codec::deploy_receipt(&taddr(2), Some(3), l).1)?;
                for (_, e, _, _) in errors(2, 3, "f", "m") {
                    for ty in 0..3 {
                        judge_dec(c, 3, &failed(ty, &e, l).encode_to_vec())?;
                    }
                }
                Ok(())
            },
        );
    }
    ctx.case(
        || "gas".into(),
        |c| {
            let more = codec::U64S.iter().map(|n| Some(*n).filter(|n| *n > 0));
            let bits = (0..64).flat_map(|b| [Some(1u64 << b), Some((1u64 << b) | 1), Some(u64::MAX >> b)]);
            for g in GASES.iter().copied().chain(more).chain(bits) {
                for k in 0..3 {
                    let (a, s) = (addr(k), state(k));
                    judge_dec(c, 3, &codec::call_receipt(&s, &[1], g, &[a], &[]).1)?;
                    judge_dec(c, 3, &codec::spawn_receipt(&a, &s, &[], g, &[a], &[]).1)?;
                    judge_dec(c, 3, &codec::deploy_receipt(&taddr(k), g, &[]).1)?;
                }
            }
            Ok(())
        },
    );
    // Documents that hold no bytes.
    ctx.case(
        || "wrappers".into(),
        |c| {
            for (f, _, _, name) in DECS {
                for j in junk() {
                    for doc in [j.clone(), json!({ "data": j }), json!({ "Data": "00" }), json!([{ "data": "00" }])] {
                        if doc["data"].as_str().map_or(false, |s| unhex(s).is_some()) {
                            continue;
                        }
                        c.step();
                        if no_panic(|| f(&doc.to_string()).is_ok()).map_err(|e| format!("{}: {} panics: {}", name, doc, e))? {
                            return Err(format!("{}: {} is accepted", name, doc));
                        }
                    }
                }
                for text in ["", " ", "{", "\"", "{\"data\":\"00\"", "nul", "\u{0}"] {
                    c.step();
                    if no_panic(|| f(text).is_ok()).map_err(|e| format!("{}: {:?} panics: {}", name, text, e))? {
                        return Err(format!("{}: {:?} is accepted", name, text));
                    }
                }
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- buffers

type WasmFn = unsafe extern "C" fn(*mut u8) -> *mut u8;

unsafe fn write(b: &[u8]) -> *mut u8 {
    let p = wasm::wasm_alloc(b.len() as i32);
    std::ptr::copy_nonoverlapping(b.as_ptr(), wasm::wasm_buffer_data(p), b.len());
    p
}

unsafe fn read(p: *mut u8) -> Vec<u8> {
    let n = wasm::wasm_buffer_length(p) as usize;
    std::slice::from_raw_parts(wasm::wasm_buffer_data(p), n).to_vec()
}

fn buffers(ctx: &mut Ctx) {
    let raw: [(WasmFn, Enc); 2] = [(wasm::wasm_encode_call, api::encode_call_raw), (wasm::wasm_encode_spawn, api::encode_spawn)];
    let by_json: [(WasmFn, Dec); 5] = [
        (wasm::wasm_encode_inputdata, api::encode_inputdata),
        (wasm::wasm_decode_inputdata, api::decode_inputdata),
        (wasm::wasm_decode_call, api::decode_call),
        (wasm::wasm_decode_spawn, api::decode_spawn),
        (wasm::wasm_decode_receipt, api::decode_receipt),
    ];
    let mut texts: Vec<Vec<u8>> = bases().iter().map(|(_, d)| d.to_string().into_bytes()).collect();
    let mut bytes = codec::receipt_seeds();
    bytes.push(w_tx(1, &codec::addr(2), "f", &[0x10], &[0x00]));
    bytes.push(w_spawn(1, &codec::taddr(2), "f", "g", &[0x10]));
    bytes.push(vec![0x10, 0x00]);
    texts.extend(bytes.iter().map(|b| json!({ "data": up(b) }).to_string().into_bytes()));
    texts.extend([b"".to_vec(), b"{".to_vec(), b"null".to_vec(), b"{}".to_vec(), b"\xFF".to_vec(), b"{\"data\":\"\xC3\"}".to_vec(), b"[]".to_vec()]);
    texts.push([&texts[0][..], b"\xE6\x97"].concat());
    for (k, text) in texts.iter().enumerate() {
        ctx.case(
            || format!("buffer {}", k),
            |c| unsafe {
                let all = raw.len() + by_json.len();
                for i in 0..all {
                    c.step();
                    let p = write(text);
                    let f = if i < raw.len() { raw[i].0 } else { by_json[i - raw.len()].0 };
                    let q = f(p);
                    let (kept, got) = (read(p), read(q));
                    if p == q || &kept != text {
                        return Err(format!("function {} changed its input {}", i, String::from_utf8_lossy(text)));
                    }
                    wasm::wasm_free(p);
                    wasm::wasm_free(q);
                    c.state(&(i, &got));
                    let want = match std::str::from_utf8(text) {
                        Err(_) => None,
                        Ok(t) if i < raw.len() => Some(raw[i].1(t).map_err(|e| e.to_string())),
                        Ok(t) => Some(by_json[i - raw.len()].1(t).map_err(|e| e.to_string()).map(|j| j.to_string().into_bytes())),
                    };
                    let ok = match (&want, got.split_first()) {
                        (Some(Ok(w)), Some((1, g))) if i < raw.len() => g == &w[..],
                        (Some(Ok(w)), Some((1, g))) => {
                            serde_json::from_slice::<Json>(g).ok() == serde_json::from_slice::<Json>(w).ok()
                        }
                        (Some(Err(w)), Some((0, g))) => g == w.as_bytes(),
                        (None, Some((0, g))) => std::str::from_utf8(g).is_ok(),
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("function {} makes {:?} of {}", i, String::from_utf8_lossy(&got), String::from_utf8_lossy(text)));
                    }
                }
                Ok(())
            },
        );
    }
    // Buffers live and die independently of each other.
    const SIZES: [usize; 4] = [0, 1, 9, 1000];
    let depth = ctx.pick(5, 6);
    for first in 0..SIZES.len() + 3 {
        ctx.case(
            || format!("buffers starting with {}", first),
            |c| {
                let mut bad = None;
                sequences(SIZES.len() + 3, depth - 1, &mut |s| {
                    if bad.is_some() {
                        return;
                    }
                    let mut live: Vec<(*mut u8, Vec<u8>)> = vec![];
                    let mut fill = 1u8;
                    for op in std::iter::once(&first).chain(s) {
                        c.step();
                        unsafe {
                            if *op < SIZES.len() {
                                let p = wasm::wasm_alloc(SIZES[*op] as i32);
                                if read(p) != vec![0; SIZES[*op]] {
                                    bad = Some(format!("{:?}: a new buffer isn't zero", s));
                                }
                                let b: Vec<u8> = (0..SIZES[*op]).map(|_| fill).collect();
                                std::ptr::copy_nonoverlapping(b.as_ptr(), wasm::wasm_buffer_data(p), b.len());
                                fill += 1;
                                live.push((p, b));
                            } else {
                                let k = op - SIZES.len();
                                if k < live.len() {
                                    wasm::wasm_free(live.remove(k).0);
                                }
                            }
                            for (p, b) in &live {
                                if &read(*p) != b {
                                    bad = Some(format!("{:?}: a buffer changed", s));
                                }
                            }
                        }
                    }
                    c.state(&live.iter().map(|l| l.1.len()).collect::<Vec<_>>());
                    live.into_iter().for_each(|(p, _)| unsafe { wasm::wasm_free(p) });
                });
                bad.map_or(Ok(()), Err)
            },
        );
    }
}
