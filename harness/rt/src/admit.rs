//! V14 and V16: which templates may be deployed.

use svm_codec::Codec;
use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_program::{Program, ProgramError};
use svm_runtime::{compute_account_addr, PriceResolverRegistry, Runtime, TemplatePriceCache, ValidateError};
use svm_state::GlobalState;
use svm_types::*;
use vh_core::{hex, no_panic, product, Ctx};

use crate::env::*;

pub fn runtime() -> Runtime {
    let t = tokio();
    let gs = t.block_on(GlobalState::in_memory(GenesisConfig { templates: Default::default() }));
    Runtime::new(t, gs, TemplatePriceCache::new(PriceResolverRegistry::default()))
}

pub fn deploy_msg(code: Vec<u8>, sizes: &[u32], ctors: &[&str]) -> Vec<u8> {
    let code = CodeSection::new_fixed(code, 0);
    let ctors = CtorsSection::new(ctors.iter().map(|s| s.to_string()).collect());
    let data = DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, sizes)));
    let header = HeaderSection::new(0, "T".to_string(), "".to_string());
    let t = Template::new(code, data, ctors).with_header(Some(header));
    svm_codec::template::encode(&t)
}

fn wasm(text: &str) -> Result<Vec<u8>, String> {
    wat::parse_str(text).map_err(|e| format!("the harness built a bad module: {}\n{}", e, text))
}

fn admitted(rt: &Runtime, code: &[u8]) -> Result<Result<(), ValidateError>, String> {
    let msg = deploy_msg(code.to_vec(), &[4], &["ctor"]);
    no_panic(|| rt.validate_deploy(&msg))
}

// ---------------------------------------------------------------------------
// V14

/// How a call is embedded into the body of its caller.
const EMBED: &[&str] = &[
    "CALL",
    "block CALL end",
    "i32.const 0 if CALL end",
    "i32.const 1 if nop else CALL end",
    "block br 0 CALL end",
    "unreachable CALL",
    "block i32.const 0 br_if 0 i32.const 1 if block nop CALL nop end end end",
    "block block i32.const 0 br_table 0 1 0 end CALL end",
    "return CALL",
    "nop CALL drop_nothing",
];

/// A function list as calls `(from, to)` over local functions, with `imports`
/// imported functions before them. `to >= n` calls the import `to - n`.
fn graph_module(n: usize, edges: &[(usize, usize, usize)], imports: usize, extra: Option<(usize, &str)>) -> String {
    let mut s = String::from("(module (type $t (func)) ");
    for i in 0..imports {
        s.push_str(&format!("(import \"svm\" \"h{}\" (func (type $t))) ", i));
    }
    s.push_str("(memory (export \"memory\") 1) (table 1 funcref) ");
    for f in 0..n {
        s.push_str(&format!("(func (type $t) ",));
        for (from, to, e) in edges.iter().filter(|x| x.0 == f) {
            let _ = from;
            let index = if *to >= n { *to - n } else { *to + imports };
            let e = EMBED[*e].replace("drop_nothing", "nop").replace("CALL", &format!("call {}", index));
            s.push_str(&e);
            s.push(' ');
        }
        if let Some((at, what)) = extra {
            if at == f {
                s.push_str(what);
            }
        }
        s.push_str(") ");
    }
    s.push_str("(func (export \"svm_alloc\") (param i32) (result i32) i32.const 0) (func (export \"svm_verify\") (result i32) i32.const 0))");
    s
}

/// Is there a cycle among local functions?
fn has_cycle(n: usize, edges: &[(usize, usize, usize)]) -> bool {
    if n > 40 {
        // Functions that call nobody (any more) are taken away.
        let mut left: Vec<bool> = vec![true; n];
        loop {
            let busy: Vec<bool> = (0..n).map(|i| left[i] && edges.iter().any(|(a, b, _)| *a == i && *b < n && left[*b])).collect();
            if busy == left {
                return left.contains(&true);
            }
            left = busy;
        }
    }
    // Transitive closure.
    let mut r = vec![vec![false; n]; n];
    for (a, b, _) in edges {
        if *b < n {
            r[*a][*b] = true;
        }
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                if r[i][k] && r[k][j] {
                    r[i][j] = true;
                }
            }
        }
    }
    (0..n).any(|i| r[i][i])
}

fn check_graph(c: &mut Ctx, rt: &Runtime, n: usize, edges: &[(usize, usize, usize)], imports: usize, extra: Option<(usize, &str, bool)>) -> Result<(), String> {
    let text = graph_module(n, edges, imports, extra.map(|(f, w, _)| (f, w)));
    let code = wasm(&text)?;
    let want = !has_cycle(n, edges) && extra.map_or(true, |(_, _, ok)| ok);
    c.step();
    let got = admitted(rt, &code)?;
    if got.is_ok() != want {
        return Err(format!("validate_deploy says {:?} for a program that should be {}:\n{}", got, if want { "accepted" } else { "rejected" }, text));
    }
    if let Err(e) = &got {
        if !matches!(e, ValidateError::FixedGas(_)) {
            return Err(format!("rejected for another reason: {:?}\n{}", e, text));
        }
    }
    let p = Program::new(&code, true).map_err(|e| format!("{:?}\n{}", e, text))?;
    for cycles in [false, true] {
        c.step();
        let got = no_panic(|| svm_gas::validate_wasm(&p, cycles))?;
        if got.is_ok() != want {
            return Err(format!("the fixed-gas validation says {:?} (cycles wanted: {})\n{}", got, cycles, text));
        }
        if let Err(svm_gas::FixedGasError::CallCycle(svm_gas::GraphCycles::HasCycles(labels))) = got {
            if !cycles {
                continue;
            }
            let l: Vec<usize> = labels.iter().map(|f| f.0 as usize).collect();
            let real = l.len() >= 2
                && l.first() == l.last()
                && l.windows(2).all(|w| {
                    w[0] >= imports
                        && w[1] >= imports
                        && edges.iter().any(|(a, b, _)| *a + imports == w[0] && *b < n && *b + imports == w[1])
                });
            if !real {
                return Err(format!("the reported cycle {:?} isn't one\n{}", l, text));
            }
        }
        if let Err(svm_gas::FixedGasError::RecursiveCall { func, .. }) = no_panic(|| svm_gas::validate_wasm(&p, cycles))? {
            let f = func.0 as usize;
            if f < imports || !edges.iter().any(|(a, b, _)| a == b && *a + imports == f) {
                return Err(format!("function {} is reported as recursive but isn't\n{}", f, text));
            }
        }
    }
    Ok(())
}

pub fn v14(c: &mut Ctx) {
    let rt = runtime();
    let go = |c: &mut Ctx, what: &str, n: usize, edges: Vec<(usize, usize, usize)>, imports: usize, extra: Option<(usize, &'static str, bool)>| {
        c.case(
            || format!("{}: {} functions, calls {:?}, {} imports, {:?}", what, n, edges, imports, extra),
            |c| {
                let mut e: Vec<(usize, usize)> = edges.iter().map(|(a, b, _)| (*a, *b)).collect();
                e.sort();
                e.dedup();
                c.state(&(n, e, imports, extra.map(|x| x.1)));
                check_graph(c, &rt, n, &edges, imports, extra)
            },
        )
    };
    // All directed graphs over n functions.
    for n in 1..=c.pick(4, 5) {
        // Five functions: without functions that call themselves.
        let slots: Vec<(usize, usize)> = (0..n * n).map(|i| (i / n, i % n)).filter(|(a, b)| n < 5 || a != b).collect();
        for m in 0..(1u32 << slots.len()) {
            let base: Vec<(usize, usize)> = slots.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, e)| *e).collect();
            let big = n == 5 || n == 4 && !c.thorough();
            for imports in if big { 0..=0 } else { 0..=2 } {
                let embeds: Vec<usize> = if big { vec![(m % EMBED.len() as u32) as usize] } else { (0..EMBED.len()).collect() };
                for e in embeds {
                    let edges = base.iter().map(|(a, b)| (*a, *b, e)).collect();
                    go(c, "graph", n, edges, imports, None);
                }
                if !big {
                    // Mixed embeddings, with calls to imports before and after.
                    let mut edges: Vec<(usize, usize, usize)> = vec![];
                    for (k, (a, b)) in base.iter().enumerate() {
                        if imports > 0 {
                            edges.push((*a, n + k % imports, 0));
                        }
                        edges.push((*a, *b, (k * 3 + 1) % EMBED.len()));
                    }
                    if imports > 0 {
                        edges.push((n - 1, n, 1));
                    }
                    go(c, "mixed", n, edges, imports, None);
                }
            }
        }
    }
    // Long cycles reached from any side, closing at any point (a lasso), in
    // ascending, descending and interleaved order of the function indices.
    for len in 2..=c.pick(9usize, 14) {
        for back in 0..=len {
            for order in 0..3 {
                for shared in [false, true] {
                    let id = |i: usize| match order {
                        0 => i,
                        1 => len - 1 - i,
                        _ => (i * 2) % len + if i * 2 >= len && len % 2 == 0 { 1 } else { 0 },
                    };
                    let mut edges: Vec<(usize, usize, usize)> = (0..len - 1).map(|i| (id(i), id(i + 1), i % EMBED.len())).collect();
                    if back < len {
                        edges.push((id(len - 1), id(back), 0));
                    }
                    if shared {
                        // Forward edges: no cycles of their own.
                        for i in 0..len {
                            for j in i + 2..len {
                                edges.push((id(i), id(j), 0));
                            }
                        }
                    }
                    go(c, "lasso", len, edges, 1, None);
                }
            }
        }
    }
    // Many functions: a chain, closed or not, in either order.
    for n in [31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 400] {
        for down in [false, true] {
            for imports in [0usize, 1, 257] {
                let id = |i: usize| if down { n - 1 - i } else { i };
                let chain: Vec<(usize, usize, usize)> = (0..n - 1).map(|i| (id(i), id(i + 1), i % EMBED.len())).collect();
                go(c, "chain", n, chain.clone(), imports, None);
                for back in [0, 1, n / 2, n - 2, n - 1] {
                    let mut e = chain.clone();
                    e.push((id(n - 1), id(back), 0));
                    go(c, "ring", n, e, imports, None);
                }
                // Only two of them call each other.
                for (a, b) in [(0, 1), (0, n - 1), (n - 2, n - 1), (n / 2, n - 1)] {
                    go(c, "pair", n, vec![(id(a), id(b), 0)], imports, None);
                    go(c, "pair", n, vec![(id(a), id(b), 0), (id(b), id(a), 1)], imports, None);
                }
                for (what, ok) in [("loop end", false), ("i32.const 0 call_indirect (type $t)", false), ("nop", true)] {
                    for f in [0, 1, n / 2, n - 1] {
                        go(c, "far", n, chain.clone(), imports, Some((f, what, ok)));
                    }
                }
            }
        }
    }
    // Much code before, or around.
    for (what, ok) in [("loop end", false), ("i32.const 0 call_indirect (type $t)", false), ("nop", true)] {
        for m in [254usize, 255, 256, 257, 65_535, 65_536, 70_000] {
            let text: &'static str = Box::leak(format!("{} {}", "nop ".repeat(m), what).into_boxed_str());
            c.case(|| format!("{} after {} instructions", what, m), |c| {
                c.state(&(what, m));
                check_graph(c, &rt, 2, &[(0, 1, 0)], 1, Some((1, text, ok)))
            });
        }
        for m in [31usize, 63, 64, 127, 128, 254, 255, 256, 257, 300] {
            for open in ["block ", "i32.const 0 if "] {
                let text: &'static str = Box::leak(format!("{} {} {}", open.repeat(m), what, "end ".repeat(m)).into_boxed_str());
                c.case(|| format!("{} in {} {}", what, m, open), |c| {
                    c.state(&(what, m, open));
                    check_graph(c, &rt, 2, &[(0, 1, 0)], 1, Some((1, text, ok)))
                });
            }
        }
    }
    // Wide sharing: every function calls all the later ones twice.
    for n in 2..=c.pick(24usize, 40) {
        let mut edges = vec![];
        for i in 0..n {
            for j in i + 1..n {
                edges.push((i, j, 0));
                edges.push((i, j, 2));
            }
        }
        go(c, "dag", n, edges.clone(), 0, None);
        edges.push((n - 1, 0, 2));
        go(c, "dag with a back call", n, edges, 0, None);
    }
    // Loops and indirect calls, anywhere.
    let wraps = ["X", "block X end", "i32.const 0 if X end", "i32.const 0 if nop else X end", "unreachable X", "return X", "block br 0 X end", "block block block X end end end"];
    let things: &[(&str, bool)] = &[
        ("loop end", false),
        ("loop nop end", false),
        ("loop i32.const 0 br_if 0 end", false),
        ("i32.const 0 loop (param i32) drop end", false),
        ("loop (result i32) i32.const 0 end drop", false),
        ("block (result i32) loop (result i32) i32.const 1 end end drop", false),
        ("i32.const 0 call_indirect (type $t)", false),
        ("i32.const 0 i32.const 0 i32.const 0 select call_indirect (type $t)", false),
        ("block br 0 end", true),
        ("block i32.const 0 br_if 0 end", true),
        ("i32.const 3 br_table 0 0", true),
        ("call 0", true),
        ("nop", true),
    ];
    for (t, ok) in things {
        for w in wraps {
            for f in 0..3usize {
                for e in [vec![], vec![(0usize, 1usize, 0usize), (1, 2, 0)], vec![(2, 0, 3), (2, 1, 0)]] {
                    if *t == "call 0" && f != 1 {
                        continue;
                    }
                    // "call 0" is a call of the import.
                    if t.contains("(param i32)") {
                        continue; // multi-value blocks aren't part of the dialect
                    }
                    let text: &'static str = Box::leak(w.replace('X', t).into_boxed_str());
                    go(c, "construct", 3, e, 1, Some((f, text, *ok)));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------
// V16

/// Every numeric, memory, parametric and variable instruction of WebAssembly 1.0:
/// mnemonic, operands (i, l, f, d), result (or '-').
const OPS: &[(&str, &str, char)] = &[
    ("nop", "", '-'), ("drop", "i", '-'), ("drop", "l", '-'), ("select", "iii", 'i'), ("select", "lli", 'l'),
    ("local.get $x", "", 'i'), ("local.set $x", "i", '-'), ("local.tee $x", "i", 'i'),
    ("global.get $g", "", 'i'), ("global.set $g", "i", '-'), ("memory.size", "", 'i'), ("memory.grow", "i", 'i'),
    ("i32.const 7", "", 'i'), ("i64.const -1", "", 'l'),
    ("i32.load", "i", 'i'), ("i64.load", "i", 'l'), ("i32.load8_s", "i", 'i'), ("i32.load8_u", "i", 'i'), ("i32.load16_s", "i", 'i'), ("i32.load16_u", "i", 'i'),
    ("i64.load8_s", "i", 'l'), ("i64.load8_u", "i", 'l'), ("i64.load16_s", "i", 'l'), ("i64.load16_u", "i", 'l'), ("i64.load32_s", "i", 'l'), ("i64.load32_u", "i", 'l'),
    ("i32.store", "ii", '-'), ("i64.store", "il", '-'), ("i32.store8", "ii", '-'), ("i32.store16", "ii", '-'), ("i64.store8", "il", '-'), ("i64.store16", "il", '-'), ("i64.store32", "il", '-'),
    ("i32.eqz", "i", 'i'), ("i32.eq", "ii", 'i'), ("i32.ne", "ii", 'i'), ("i32.lt_s", "ii", 'i'), ("i32.lt_u", "ii", 'i'), ("i32.gt_s", "ii", 'i'), ("i32.gt_u", "ii", 'i'), ("i32.le_s", "ii", 'i'), ("i32.le_u", "ii", 'i'), ("i32.ge_s", "ii", 'i'), ("i32.ge_u", "ii", 'i'),
    ("i64.eqz", "l", 'i'), ("i64.eq", "ll", 'i'), ("i64.ne", "ll", 'i'), ("i64.lt_s", "ll", 'i'), ("i64.lt_u", "ll", 'i'), ("i64.gt_s", "ll", 'i'), ("i64.gt_u", "ll", 'i'), ("i64.le_s", "ll", 'i'), ("i64.le_u", "ll", 'i'), ("i64.ge_s", "ll", 'i'), ("i64.ge_u", "ll", 'i'),
    ("i32.clz", "i", 'i'), ("i32.ctz", "i", 'i'), ("i32.popcnt", "i", 'i'), ("i32.add", "ii", 'i'), ("i32.sub", "ii", 'i'), ("i32.mul", "ii", 'i'), ("i32.div_s", "ii", 'i'), ("i32.div_u", "ii", 'i'), ("i32.rem_s", "ii", 'i'), ("i32.rem_u", "ii", 'i'), ("i32.and", "ii", 'i'), ("i32.or", "ii", 'i'), ("i32.xor", "ii", 'i'), ("i32.shl", "ii", 'i'), ("i32.shr_s", "ii", 'i'), ("i32.shr_u", "ii", 'i'), ("i32.rotl", "ii", 'i'), ("i32.rotr", "ii", 'i'),
    ("i64.clz", "l", 'l'), ("i64.ctz", "l", 'l'), ("i64.popcnt", "l", 'l'), ("i64.add", "ll", 'l'), ("i64.sub", "ll", 'l'), ("i64.mul", "ll", 'l'), ("i64.div_s", "ll", 'l'), ("i64.div_u", "ll", 'l'), ("i64.rem_s", "ll", 'l'), ("i64.rem_u", "ll", 'l'), ("i64.and", "ll", 'l'), ("i64.or", "ll", 'l'), ("i64.xor", "ll", 'l'), ("i64.shl", "ll", 'l'), ("i64.shr_s", "ll", 'l'), ("i64.shr_u", "ll", 'l'), ("i64.rotl", "ll", 'l'), ("i64.rotr", "ll", 'l'),
    ("i32.wrap_i64", "l", 'i'), ("i64.extend_i32_s", "i", 'l'), ("i64.extend_i32_u", "i", 'l'),
    // Floating-point instructions.
    ("f32.const 1.5", "", 'f'), ("f64.const 1.5", "", 'd'), ("f32.load", "i", 'f'), ("f64.load", "i", 'd'), ("f32.store", "if", '-'), ("f64.store", "id", '-'),
    ("f32.eq", "ff", 'i'), ("f32.ne", "ff", 'i'), ("f32.lt", "ff", 'i'), ("f32.gt", "ff", 'i'), ("f32.le", "ff", 'i'), ("f32.ge", "ff", 'i'),
    ("f64.eq", "dd", 'i'), ("f64.ne", "dd", 'i'), ("f64.lt", "dd", 'i'), ("f64.gt", "dd", 'i'), ("f64.le", "dd", 'i'), ("f64.ge", "dd", 'i'),
    ("f32.abs", "f", 'f'), ("f32.neg", "f", 'f'), ("f32.ceil", "f", 'f'), ("f32.floor", "f", 'f'), ("f32.trunc", "f", 'f'), ("f32.nearest", "f", 'f'), ("f32.sqrt", "f", 'f'),
    ("f32.add", "ff", 'f'), ("f32.sub", "ff", 'f'), ("f32.mul", "ff", 'f'), ("f32.div", "ff", 'f'), ("f32.min", "ff", 'f'), ("f32.max", "ff", 'f'), ("f32.copysign", "ff", 'f'),
    ("f64.abs", "d", 'd'), ("f64.neg", "d", 'd'), ("f64.ceil", "d", 'd'), ("f64.floor", "d", 'd'), ("f64.trunc", "d", 'd'), ("f64.nearest", "d", 'd'), ("f64.sqrt", "d", 'd'),
    ("f64.add", "dd", 'd'), ("f64.sub", "dd", 'd'), ("f64.mul", "dd", 'd'), ("f64.div", "dd", 'd'), ("f64.min", "dd", 'd'), ("f64.max", "dd", 'd'), ("f64.copysign", "dd", 'd'),
    ("i32.trunc_f32_s", "f", 'i'), ("i32.trunc_f32_u", "f", 'i'), ("i32.trunc_f64_s", "d", 'i'), ("i32.trunc_f64_u", "d", 'i'),
    ("i64.trunc_f32_s", "f", 'l'), ("i64.trunc_f32_u", "f", 'l'), ("i64.trunc_f64_s", "d", 'l'), ("i64.trunc_f64_u", "d", 'l'),
    ("f32.convert_i32_s", "i", 'f'), ("f32.convert_i32_u", "i", 'f'), ("f32.convert_i64_s", "l", 'f'), ("f32.convert_i64_u", "l", 'f'), ("f32.demote_f64", "d", 'f'),
    ("f64.convert_i32_s", "i", 'd'), ("f64.convert_i32_u", "i", 'd'), ("f64.convert_i64_s", "l", 'd'), ("f64.convert_i64_u", "l", 'd'), ("f64.promote_f32", "f", 'd'),
    ("i32.reinterpret_f32", "f", 'i'), ("i64.reinterpret_f64", "d", 'l'), ("f32.reinterpret_i32", "i", 'f'), ("f64.reinterpret_i64", "l", 'd'),
];

fn is_float(op: &(&str, &str, char)) -> bool {
    op.0.starts_with('f') || op.1.contains('f') || op.1.contains('d') && op.0 != "drop"
}

/// The instruction, with nothing of floating-point around it (its operands
/// come out of unreachable code), or in reachable code (`reach`, integer only).
fn op_code(op: &(&str, &str, char), reach: bool) -> String {
    let mut s = String::new();
    if reach {
        for p in op.1.chars() {
            s.push_str(if p == 'i' { "i32.const 1 " } else { "i64.const 1 " });
        }
        s.push_str(op.0);
        if op.2 != '-' {
            s.push_str(" drop");
        }
    } else {
        s.push_str("block unreachable ");
        s.push_str(op.0);
        if op.2 != '-' {
            s.push_str(" drop");
        }
        s.push_str(" end");
    }
    s
}

/// Where in the module the code goes.
const PLACES: usize = 10;

fn place(at: usize, code: &str) -> String {
    let none = "nop".to_string();
    let pick = |n: usize| if at == n { code.to_string() } else { none.clone() };
    format!(
        "(module (import \"svm\" \"svm_log\" (func (param i32 i32))) (memory (export \"memory\") 1) (global $g (mut i32) (i32.const 0)) \
         (func (local $x i32) {}) \
         (func (export \"svm_alloc\") (param $x i32) (result i32) {} i32.const 0) \
         (func (export \"svm_verify\") (result i32) (local $x i32) {} i32.const 0) \
         (func (export \"ctor\") (local $x i32) {} ) \
         (func (export \"f\") (local $x i32) block {} i32.const 0 if {} else {} end end) \
         (func (export \"g\") (local $x i32) return {}) \
         (func (local $x i32) block br 0 block {} end end) \
         (func (local $x i32) nop nop nop {}))",
        pick(0), pick(1), pick(2), pick(3), pick(4), pick(5), pick(6), pick(7), pick(8), pick(9)
    )
}

fn expect(rt: &Runtime, code: &[u8], want: Result<(), &dyn Fn(&ValidateError) -> bool>) -> Result<(), String> {
    let got = admitted(rt, code)?;
    match (&got, want) {
        (Ok(()), Ok(())) => Ok(()),
        (Err(e), Err(f)) if f(e) => Ok(()),
        (Err(e), Err(_)) => Err(format!("rejected, but for another reason: {:?}", e)),
        (Ok(()), Err(_)) => Err("accepted, but should be rejected".into()),
        (Err(e), Ok(())) => Err(format!("rejected ({:?}), but should be accepted", e)),
    }
}

/// How `svm_alloc` / `svm_verify` are exported.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Exp {
    Missing,
    /// A function with these parameters and results.
    Func(&'static str, &'static str),
    /// An imported function of the right signature.
    Imported,
    Memory,
    Global,
    Table,
}

const SIGS: &[(&str, &str)] = &[
    ("", ""), ("", "i32"), ("", "i64"), ("i32", ""), ("i32", "i32"), ("i32", "i64"), ("i64", "i32"), ("i64", "i64"), ("i64", ""), ("i32 i32", "i32"), ("i32 i32", ""),
];

fn func_text(name: &str, p: &str, r: &str) -> String {
    format!(
        "(func {} {} {} {}) ",
        if name.is_empty() { String::new() } else { format!("(export \"{}\")", name) },
        if p.is_empty() { String::new() } else { format!("(param {})", p) },
        if r.is_empty() { String::new() } else { format!("(result {})", r) },
        if r.is_empty() { "nop".to_string() } else { format!("{}.const 0", r) }
    )
}

fn export_module(alloc: Exp, verify: Exp, imports: usize, flip: bool) -> String {
    let mut s = String::from("(module ");
    for i in 0..imports {
        // The imports' types are those of the functions wanted, so that a
        // lookup with a wrong index finds a good signature.
        s.push_str(&format!("(import \"svm\" \"h{}\" (func {})) ", i, if i % 2 == 0 { "(param i32) (result i32)" } else { "(result i32)" }));
    }
    if alloc == Exp::Imported {
        s.push_str("(import \"svm\" \"a\" (func $a (param i32) (result i32))) (export \"svm_alloc\" (func $a)) ");
    }
    if verify == Exp::Imported {
        s.push_str("(import \"svm\" \"v\" (func $v (result i32))) (export \"svm_verify\" (func $v)) ");
    }
    s.push_str("(memory (export \"memory\") 1) (table $t 1 funcref) (global $g i32 (i32.const 0)) ");
    let one = |name: &str, e: Exp| match e {
        Exp::Missing | Exp::Imported => String::new(),
        Exp::Func(p, r) => func_text(name, p, r),
        Exp::Memory => format!("(export \"{}\" (memory 0)) ", name),
        Exp::Global => format!("(export \"{}\" (global $g)) ", name),
        Exp::Table => format!("(export \"{}\" (table $t)) ", name),
    };
    // Functions with other signatures around.
    s.push_str(&func_text("ctor", "", ""));
    s.push_str(&func_text("", "i64 i64", "i64"));
    if flip {
        s.push_str(&one("svm_verify", verify));
        s.push_str(&func_text("", "i64", ""));
        s.push_str(&one("svm_alloc", alloc));
    } else {
        s.push_str(&one("svm_alloc", alloc));
        s.push_str(&func_text("other", "i64", ""));
        s.push_str(&one("svm_verify", verify));
    }
    s.push_str(&func_text("", "i32", ""));
    s.push(')');
    s
}

/// A module with the given number of functions, in binary (quicker than text).
fn many(imports: usize, functions: usize) -> Vec<u8> {
    fn leb(mut n: usize) -> Vec<u8> {
        let mut v = vec![];
        loop {
            let b = (n & 0x7f) as u8;
            n >>= 7;
            if n == 0 {
                v.push(b);
                return v;
            }
            v.push(b | 0x80);
        }
    }
    fn section(out: &mut Vec<u8>, id: u8, body: Vec<u8>) {
        out.push(id);
        out.extend(leb(body.len()));
        out.extend(body);
    }
    let mut m = b"\0asm\x01\0\0\0".to_vec();
    // 0: () -> (); 1: i32 -> i32; 2: () -> i32
    section(&mut m, 1, vec![3, 0x60, 0, 0, 0x60, 1, 0x7f, 1, 0x7f, 0x60, 0, 1, 0x7f]);
    if imports > 0 {
        let mut b = leb(imports);
        for _ in 0..imports {
            b.extend([3, b's', b'v', b'm', 1, b'h', 0, 0]);
        }
        section(&mut m, 2, b);
    }
    let mut b = leb(functions);
    b.extend([1, 2]);
    b.extend(vec![0; functions - 2]);
    section(&mut m, 3, b);
    section(&mut m, 5, vec![1, 0, 1]);
    let mut b = vec![3];
    b.extend([6]);
    b.extend(b"memory");
    b.extend([2, 0, 9]);
    b.extend(b"svm_alloc");
    b.push(0);
    b.extend(leb(imports));
    b.push(10);
    b.extend(b"svm_verify");
    b.push(0);
    b.extend(leb(imports + 1));
    section(&mut m, 7, b);
    let mut b = leb(functions);
    b.extend([4, 0, 0x41, 0, 0x0b, 4, 0, 0x41, 0, 0x0b]);
    for _ in 0..functions - 2 {
        b.extend([2, 0, 0x0b]);
    }
    section(&mut m, 10, b);
    m
}

pub const TINY: &str = "(module (import \"svm\" \"svm_log\" (func (param i32 i32))) (memory (export \"memory\") 1) \
    (func (export \"svm_alloc\") (param i32) (result i32) i32.const 16) \
    (func (export \"svm_verify\") (result i32) i32.const 0) \
    (func $h (param i32) (result i32) local.get 0 i32.const 3 i32.add) \
    (func (export \"ctor\") block i32.const 1 br_if 0 i32.const 0 call $h drop end i32.const 0 if nop else nop end))";

/// Whatever is admitted can be deployed, priced and spawned.
fn deploy_and_spawn(shared: &Runtime, code: &[u8]) -> Result<&'static str, String> {
    message_deploys(shared, &deploy_msg(code.to_vec(), &[4], &["ctor"]))
}

fn message_deploys(shared: &Runtime, msg: &[u8]) -> Result<&'static str, String> {
    match no_panic(|| shared.validate_deploy(&msg))? {
        Err(_) => return Ok("rejected"),
        Ok(()) => {}
    }
    let mut rt = runtime();
    let env = Envelope::new(Address::repeat(0x11), 0, 0, Gas::with(1 << 60), 0);
    let r = no_panic(|| rt.deploy(&env, &msg, &Context::default()))?;
    if !r.success {
        return Err(format!("deploying failed: {:?}", r));
    }
    let addr = r.addr.unwrap();
    let spawn = SpawnAccount::new(0, &addr, "A", "ctor", vec![]);
    let target = compute_account_addr(&spawn);
    let r = no_panic(|| rt.spawn(&env, &spawn.encode_to_vec(), &Context::default()))?;
    if r.success != rt.get_account(&target).is_some() {
        return Err(format!("spawning: success is {}, but the account: {:?}", r.success, rt.get_account(&target)));
    }
    Ok(if r.success { "spawned" } else { "failed" })
}

/// The bytes of each kind of section, without the number of sections.
fn sections_of_kinds(code: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let alone = |s: Section| {
        let mut all = Sections::with_capacity(1);
        all.insert(s);
        svm_codec::template::encode(&Template::from_sections(all))[2..].to_vec()
    };
    let layout = Layout::Fixed(FixedLayout::from_byte_sizes(0, &[4]));
    vec![
        ("code", alone(CodeSection::new_fixed(code.to_vec(), 0).into())),
        ("data", alone(DataSection::with_layout(layout).into())),
        ("ctors", alone(CtorsSection::new(vec!["ctor".to_string()]).into())),
        ("header", alone(HeaderSection::new(0, "T".to_string(), "".to_string()).into())),
        ("deploy", alone(DeploySection::new(TransactionId::repeat(1), Layer(1), Address::repeat(2), TemplateAddr::repeat(3)).into())),
        ("schema", vec![0, 5, 0, 0, 0, 0]),
        ("api", vec![0, 4, 0, 0, 0, 0]),
        ("unknown", vec![0xFF, 0xFF, 0, 0, 0, 0]),
        ("nothing", vec![]),
    ]
}

/// Deployments as messages: their sections, and changes of their bytes.
fn messages(c: &mut Ctx, rt: &Runtime, tiny: &[u8]) {
    let kinds = sections_of_kinds(tiny);
    let max = if c.thorough() { 5 } else { 4 };
    for len in 0..=max {
        product(&vec![kinds.len(); len], &mut |v| {
            c.case(
                || format!("a deployment of the sections {:?}", v.iter().map(|k| kinds[*k].0).collect::<Vec<_>>()),
                |c| {
                    c.step();
                    let mut msg = vec![0, len as u8];
                    v.iter().for_each(|k| msg.extend_from_slice(&kinds[*k].1));
                    let r = message_deploys(rt, &msg)?;
                    c.state(&("sections", v.to_vec(), r));
                    let complete = (0..3).all(|k| v.contains(&k));
                    if !complete && r != "rejected" {
                        return Err("accepted without code, layout or constructors".into());
                    }
                    if complete && v.iter().all(|k| *k < 5) && r != "spawned" {
                        return Err(format!("{}, but it has all it needs", r));
                    }
                    Ok(())
                },
            );
        });
    }
    let msg = deploy_msg(tiny.to_vec(), &[4, 1], &["ctor"]);
    let at = msg.windows(tiny.len()).position(|w| w == tiny).expect("the code in the message");
    for n in 0..msg.len() {
        c.case(|| format!("the first {} bytes of the message {}", n, hex(&msg)), |c| {
            c.step();
            c.state(&("cut", n));
            match message_deploys(rt, &msg[..n])? {
                "rejected" => Ok(()),
                r => Err(r.to_string()),
            }
        });
        // The bytes of the code have their own cases.
        if n >= at && n < at + tiny.len() {
            continue;
        }
        for b in 0..=255u8 {
            if b == msg[n] {
                continue;
            }
            c.case(|| format!("byte {} set to {:02x} of the message {}", n, b, hex(&msg)), |c| {
                c.step();
                let mut m = msg.clone();
                m[n] = b;
                let r = message_deploys(rt, &m)?;
                c.state(&("message", n, b, r));
                Ok(())
            });
        }
    }
}

pub fn v16(c: &mut Ctx) {
    let rt = runtime();
    messages(c, &rt, &wat::parse_str(TINY).unwrap());
    let floats = |e: &ValidateError| matches!(e, ValidateError::Program(ProgramError::FloatsNotAllowed));
    // Every instruction at every place.
    for (k, op) in OPS.iter().enumerate() {
        for at in 0..PLACES {
            for reach in [false, true] {
                if reach && is_float(op) {
                    continue;
                }
                c.case(
                    || format!("instruction {} ({}) at place {} (reachable: {})", op.0, op.1, at, reach),
                    |c| {
                        c.state(&(k, at, reach));
                        c.step();
                        let code = wasm(&place(at, &op_code(op, reach)))?;
                        if is_float(op) {
                            expect(&rt, &code, Err(&floats))
                        } else {
                            expect(&rt, &code, Ok(()))
                        }
                    },
                );
            }
        }
    }
    // An integer instruction next to a floating-point one.
    for (k, a) in OPS.iter().enumerate() {
        for (j, b) in OPS.iter().enumerate() {
            if is_float(a) == is_float(b) && !(c.thorough() && is_float(a)) {
                continue;
            }
            if !c.thorough() && (k + j) % 4 != 0 && k % 16 != 0 {
                continue;
            }
            c.case(
                || format!("instructions {} {} / {} {}", k, a.0, j, b.0),
                |c| {
                    c.state(&(k, j, "pair"));
                    c.step();
                    let code = wasm(&place((k + j) % PLACES, &format!("{} {}", op_code(a, false), op_code(b, false))))?;
                    expect(&rt, &code, Err(&floats))
                },
            );
        }
    }
    // Far away: in one of many functions, after much other code, deep inside.
    for thing in ["f32.const 1 drop", "i32.const 0 f64.load drop", "f32.const 1 i32.trunc_f32_s drop", "i32.const 0 drop", "i64.const 0 f64.reinterpret_i64 drop"] {
        let good = thing == "i32.const 0 drop";
        let mut texts: Vec<(String, String)> = vec![];
        for at in [0usize, 1, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 299] {
            let mut funcs = String::new();
            for f in 0..300 {
                funcs.push_str(if f == at { "(func X) " } else { "(func nop) " });
            }
            texts.push((format!("function {} of 300", at), funcs));
        }
        for m in [100usize, 254, 255, 256, 257, 1000, 4096, 65_534, 65_535, 65_536, 70_000] {
            texts.push((format!("after {} instructions", m), format!("(func {} X)", "nop ".repeat(m))));
            texts.push((format!("before {} instructions", m), format!("(func X {})", "nop ".repeat(m))));
        }
        for d in [10usize, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300] {
            texts.push((format!("in {} blocks", d), format!("(func {} X {})", "block ".repeat(d), "end ".repeat(d))));
            texts.push((format!("in {} ifs", d), format!("(func {} X {})", "i32.const 0 if ".repeat(d), "end ".repeat(d))));
        }
        for (what, text) in texts {
            c.case(|| format!("{} {}", thing, what), |c| {
                c.state(&(thing, &what));
                c.step();
                let text = format!("(module (memory (export \"memory\") 1) {} (func (export \"svm_alloc\") (param i32) (result i32) i32.const 0) (func (export \"svm_verify\") (result i32) i32.const 0))", text.replace('X', thing));
                let code = wasm(&text)?;
                if good {
                    expect(&rt, &code, Ok(()))
                } else {
                    expect(&rt, &code, Err(&floats))
                }
            });
        }
    }
    // The exported functions required.
    let mut exps = vec![Exp::Missing, Exp::Imported, Exp::Memory, Exp::Global, Exp::Table];
    exps.extend(SIGS.iter().map(|(p, r)| Exp::Func(p, r)));
    let is_export_error = |e: &ValidateError| {
        matches!(
            e,
            ValidateError::Program(ProgramError::FunctionNotFound(_))
                | ValidateError::Program(ProgramError::InvalidExportFunctionSignature(_))
                | ValidateError::Program(ProgramError::InvalidExportKind)
        )
    };
    product(&[exps.len(), exps.len(), 4, 2], &mut |v| {
        let (a, f, imports, flip) = (exps[v[0]], exps[v[1]], v[2], v[3] == 1);
        c.case(
            || format!("svm_alloc: {:?}, svm_verify: {:?}, imports: {}, flipped: {}", a, f, imports, flip),
            |c| {
                c.state(&(v[0], v[1], imports, flip));
                c.step();
                let code = wasm(&export_module(a, f, imports, flip))?;
                if a == Exp::Func("i32", "i32") && f == Exp::Func("", "i32") {
                    expect(&rt, &code, Ok(()))
                } else {
                    expect(&rt, &code, Err(&is_export_error))
                }
            },
        );
    });
    // The number of functions.
    let limit = u16::MAX as usize;
    for imports in [0usize, 1, 2, 300, 65_000, 65_533, 65_534, 65_535] {
        for total in [limit - 1, limit, limit + 1, limit + 2, limit + 300] {
            if total < imports + 2 {
                continue;
            }
            c.case(
                || format!("{} imports, {} functions altogether", imports, total),
                |c| {
                    c.state(&(imports, total));
                    c.step();
                    let code = many(imports, total - imports);
                    if total <= limit {
                        expect(&rt, &code, Ok(()))
                    } else {
                        let too_many = |e: &ValidateError| {
                            matches!(
                                e,
                                ValidateError::Program(ProgramError::FunctionIndexTooLarge)
                                    | ValidateError::Program(ProgramError::TooManyFunctionImports)
                            )
                        };
                        expect(&rt, &code, Err(&too_many))
                    }
                },
            );
        }
    }
    // Every code that differs in one byte from a good one, and every prefix:
    // never a panic, and whatever is admitted works.
    let tiny = wat::parse_str(TINY).unwrap();
    for n in 0..tiny.len() {
        c.case(|| format!("the first {} bytes of {}", n, hex(&tiny)), |c| {
            c.state(&("prefix", n));
            c.step();
            deploy_and_spawn(&rt, &tiny[..n]).map(|_| ())
        });
        for b in 0..=255u8 {
            if b == tiny[n] {
                continue;
            }
            c.case(|| format!("byte {} set to {:02x} of {}", n, b, hex(&tiny)), |c| {
                c.step();
                let mut code = tiny.clone();
                code[n] = b;
                let r = deploy_and_spawn(&rt, &code)?;
                c.state(&("byte", n, b, r));
                Ok(())
            });
            // Thorough: two neighbouring bytes.
            if !c.thorough() || n + 1 == tiny.len() {
                continue;
            }
            for b2 in [0u8, 1, 2, 3, 4, 5, 0x0b, 0x0c, 0x10, 0x20, 0x40, 0x41, 0x60, 0x6a, 0x7e, 0x7f, 0x80, 0xff] {
                if b2 == tiny[n + 1] {
                    continue;
                }
                c.case(|| format!("bytes {} set to {:02x} {:02x} of {}", n, b, b2, hex(&tiny)), |c| {
                    c.step();
                    let mut code = tiny.clone();
                    code[n] = b;
                    code[n + 1] = b2;
                    let r = deploy_and_spawn(&rt, &code)?;
                    c.state(&("bytes", n, b, b2, r));
                    Ok(())
                });
            }
        }
    }
}
