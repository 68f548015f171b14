//! V15: the price of a function is the cost of its most expensive execution path.
//!
//! Every structured function body up to a size is enumerated (blocks, ifs with
//! and without else, every kind of branch to every label, returns and traps,
//! code after them included), built as a real Wasm module, and priced by the
//! code of /repo. The oracle walks the syntax tree and follows every path.

use std::collections::BTreeMap;
use std::rc::Rc;

use parity_wasm::elements as el;
use parity_wasm::elements::Instruction as I;
use svm_gas::{PriceResolver, ProgramPricing};
use svm_program::{FuncIndex, Op, Program};
use vh_core::{sequences, Ctx};

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Block(Rc<Vec<S>>),
    If(Rc<Vec<S>>),
    IfElse(Rc<Vec<S>>, Rc<Vec<S>>),
    Br(u32),
    BrIf(u32),
    BrTable(Vec<u32>, u32),
    Return,
    Unreachable,
    /// `nop` instructions
    Nops(u32),
    Call(u32),
}

fn show(b: &[S]) -> String {
    b.iter()
        .map(|s| match s {
            S::Block(b) => format!("block[{}]", show(b)),
            S::If(b) => format!("if[{}]", show(b)),
            S::IfElse(a, b) => format!("if[{}]else[{}]", show(a), show(b)),
            S::Br(d) => format!("br{}", d),
            S::BrIf(d) => format!("br_if{}", d),
            S::BrTable(t, d) => format!("br_table{:?}/{}", t, d),
            S::Return => "return".into(),
            S::Unreachable => "unreachable".into(),
            S::Nops(n) => format!("nop*{}", n),
            S::Call(f) => format!("call{}", f),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// All the bodies with exactly `n` control statements, inside of `depth` labels
/// (the function's own label included).
struct Gen {
    memo: BTreeMap<(usize, u32), Rc<Vec<Rc<Vec<S>>>>>,
    tables: bool,
}

impl Gen {
    fn leaves(&self, depth: u32) -> Vec<S> {
        let mut v = vec![];
        for d in 0..depth {
            v.push(S::Br(d));
        }
        for d in 0..depth {
            v.push(S::BrIf(d));
        }
        v.push(S::Return);
        if self.tables {
            for d in 0..depth {
                for e in 0..depth {
                    v.push(S::BrTable(vec![d], e));
                }
            }
            v.push(S::Unreachable);
        }
        v
    }

    fn stmts(&mut self, n: usize, depth: u32) -> Vec<S> {
        let mut v = vec![];
        if n == 1 {
            v.extend(self.leaves(depth));
        }
        for b in self.bodies(n - 1, depth + 1).iter() {
            v.push(S::Block(b.clone()));
            v.push(S::If(b.clone()));
        }
        for k in 0..n {
            let (xs, ys) = (self.bodies(k, depth + 1), self.bodies(n - 1 - k, depth + 1));
            for x in xs.iter() {
                for y in ys.iter() {
                    v.push(S::IfElse(x.clone(), y.clone()));
                }
            }
        }
        v
    }

    fn bodies(&mut self, n: usize, depth: u32) -> Rc<Vec<Rc<Vec<S>>>> {
        if let Some(x) = self.memo.get(&(n, depth)) {
            return x.clone();
        }
        let mut v = vec![];
        if n == 0 {
            v.push(Rc::new(vec![]));
        }
        for k in 1..=n {
            let first = self.stmts(k, depth);
            let rest = self.bodies(n - k, depth);
            for f in &first {
                for r in rest.iter() {
                    let mut b = Vec::with_capacity(r.len() + 1);
                    b.push(f.clone());
                    b.extend(r.iter().cloned());
                    v.push(Rc::new(b));
                }
            }
        }
        let v = Rc::new(v);
        self.memo.insert((n, depth), v.clone());
        v
    }

    /// Like `bodies` without keeping the outermost level in memory.
    fn for_each(&mut self, n: usize, f: &mut dyn FnMut(&[S])) {
        for k in 1..=n {
            let rest = self.bodies(n - k, 1);
            let mut go = |s: S| {
                for r in rest.iter() {
                    let mut b = Vec::with_capacity(r.len() + 1);
                    b.push(s.clone());
                    b.extend(r.iter().cloned());
                    f(&b);
                }
            };
            if k == 1 {
                for s in self.leaves(1) {
                    go(s);
                }
            }
            for b in self.bodies(k - 1, 2).iter() {
                go(S::Block(b.clone()));
                go(S::If(b.clone()));
            }
            for i in 0..k {
                let (xs, ys) = (self.bodies(i, 2), self.bodies(k - 1 - i, 2));
                for x in xs.iter() {
                    for y in ys.iter() {
                        go(S::IfElse(x.clone(), y.clone()));
                    }
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Weights {
    /// Nothing but the statements; every priced instruction costs one.
    Sparse,
    /// A marker instruction around every statement: the i-th costs `2^i`.
    Up,
    /// The same with the weights reversed.
    Down,
}

struct Emit {
    code: Vec<I>,
    w: Weights,
    marker: u32,
    total: u32,
}

impl Emit {
    fn weight(&self, m: u32) -> i32 {
        match self.w {
            Weights::Sparse => 1,
            Weights::Up => 1 << m,
            Weights::Down => 1 << (self.total - 1 - m),
        }
    }
    fn mark(&mut self) {
        if self.w != Weights::Sparse {
            let w = self.weight(self.marker);
            self.marker += 1;
            self.code.push(I::I32Const(w));
            self.code.push(I::Drop);
        }
    }
    fn cond(&mut self) {
        self.code.push(I::I32Const(if self.w == Weights::Sparse { 1 } else { 0 }));
    }
    fn body(&mut self, b: &[S]) {
        self.mark();
        for s in b {
            match s {
                S::Block(b) => {
                    self.code.push(I::Block(el::BlockType::NoResult));
                    self.body(b);
                    self.code.push(I::End);
                }
                S::If(b) => {
                    self.cond();
                    self.code.push(I::If(el::BlockType::NoResult));
                    self.body(b);
                    self.code.push(I::End);
                }
                S::IfElse(a, b) => {
                    self.cond();
                    self.code.push(I::If(el::BlockType::NoResult));
                    self.body(a);
                    self.code.push(I::Else);
                    self.body(b);
                    self.code.push(I::End);
                }
                S::Br(d) => self.code.push(I::Br(*d)),
                S::BrIf(d) => {
                    self.cond();
                    self.code.push(I::BrIf(*d));
                }
                S::BrTable(t, d) => {
                    self.cond();
                    self.code.push(I::BrTable(Box::new(el::BrTableData {
                        table: t.clone().into_boxed_slice(),
                        default: *d,
                    })));
                }
                S::Return => self.code.push(I::Return),
                S::Unreachable => self.code.push(I::Unreachable),
                S::Nops(n) => {
                    for _ in 0..*n {
                        self.code.push(I::Nop)
                    }
                }
                S::Call(f) => self.code.push(I::Call(*f)),
            }
            self.mark();
        }
    }
}

fn markers(b: &[S]) -> u32 {
    1 + b
        .iter()
        .map(|s| {
            1 + match s {
                S::Block(b) | S::If(b) => markers(b),
                S::IfElse(a, b) => markers(a) + markers(b),
                _ => 0,
            }
        })
        .sum::<u32>()
}

fn emit(b: &[S], w: Weights) -> Vec<I> {
    let mut e = Emit { code: vec![], w, marker: 0, total: markers(b) };
    e.body(b);
    e.code.push(I::End);
    e.code
}

// -- the oracle -------------------------------------------------------------

/// How control leaves a statement list, and the most expensive way to do so.
#[derive(Default)]
struct Out {
    next: Option<u64>,
    /// Branches by relative label.
    br: BTreeMap<u32, u64>,
    /// Left the function (return or trap).
    exit: Option<u64>,
}

fn up(a: &mut Option<u64>, b: u64) {
    *a = Some(a.map_or(b, |x| x.max(b)));
}

impl Out {
    fn merge_br(&mut self, d: u32, c: u64) {
        let e = self.br.entry(d).or_insert(c);
        *e = (*e).max(c);
    }
    /// Adds the ways out of a nested body executed at the cost `base` (the
    /// fallthrough excluded), translating its label 0.
    fn nested(&mut self, base: u64, b: Out, next: &mut Option<u64>) {
        if let Some(c) = b.next {
            up(next, base + c);
        }
        for (d, c) in b.br {
            if d == 0 {
                up(next, base + c);
            } else {
                self.merge_br(d - 1, base + c);
            }
        }
        if let Some(c) = b.exit {
            up(&mut self.exit, base + c);
        }
    }
}

struct Oracle<'a> {
    w: Weights,
    marker: u32,
    total: u32,
    op: &'a dyn Fn(&I) -> u64,
    call: &'a dyn Fn(u32) -> u64,
}

impl<'a> Oracle<'a> {
    fn mark(&mut self) -> u64 {
        if self.w == Weights::Sparse {
            return 0;
        }
        let m = self.marker;
        self.marker += 1;
        let w = match self.w {
            Weights::Up => 1i32 << m,
            _ => 1 << (self.total - 1 - m),
        };
        (self.op)(&I::I32Const(w)) + (self.op)(&I::Drop)
    }
    fn cond(&self) -> u64 {
        (self.op)(&I::I32Const(if self.w == Weights::Sparse { 1 } else { 0 }))
    }
    fn body(&mut self, b: &[S]) -> Out {
        let mut o = Out::default();
        let mut cur: Option<u64> = Some(self.mark());
        for s in b {
            // `cur` is `None` in dead code: nothing is executed there, but the
            // markers still have to be counted.
            let mut next: Option<u64> = None;
            let base = cur;
            match s {
                S::Block(inner) => {
                    let r = self.body(inner);
                    if let Some(c) = base {
                        o.nested(c + (self.op)(&I::Block(el::BlockType::NoResult)), r, &mut next);
                    }
                }
                S::If(inner) => {
                    let r = self.body(inner);
                    if let Some(c) = base {
                        let c = c + self.cond();
                        o.nested(c, r, &mut next);
                        up(&mut next, c);
                    }
                }
                S::IfElse(x, y) => {
                    let rx = self.body(x);
                    let ry = self.body(y);
                    if let Some(c) = base {
                        let c = c + self.cond();
                        o.nested(c, rx, &mut next);
                        o.nested(c, ry, &mut next);
                    }
                }
                S::Br(d) => {
                    if let Some(c) = base {
                        o.merge_br(*d, c);
                    }
                }
                S::BrIf(d) => {
                    if let Some(c) = base {
                        let c = c + self.cond();
                        o.merge_br(*d, c);
                        next = Some(c);
                    }
                }
                S::BrTable(t, d) => {
                    if let Some(c) = base {
                        let c = c + self.cond();
                        for l in t.iter().chain(std::iter::once(d)) {
                            o.merge_br(*l, c);
                        }
                    }
                }
                S::Return | S::Unreachable => {
                    if let Some(c) = base {
                        up(&mut o.exit, c);
                    }
                }
                S::Nops(n) => next = base.map(|c| c + *n as u64 * (self.op)(&I::Nop)),
                S::Call(f) => next = base.map(|c| c + (self.call)(*f)),
            }
            let m = self.mark();
            cur = next.map(|c| c + m);
        }
        o.next = cur;
        o
    }
}

fn oracle(b: &[S], w: Weights, op: &dyn Fn(&I) -> u64, call: &dyn Fn(u32) -> u64) -> u64 {
    let mut x = Oracle { w, marker: 0, total: markers(b), op, call };
    let o = x.body(b);
    let mut best = o.next;
    for (_, c) in o.br {
        up(&mut best, c);
    }
    if let Some(c) = o.exit {
        up(&mut best, c);
    }
    best.unwrap()
}

// -- the implementation side -------------------------------------------------

/// Prices constants by their value and `drop` at nothing.
struct Weigher;

impl PriceResolver for Weigher {
    fn op_price(&self, op: &Op) -> usize {
        weigher(op.raw()) as usize
    }
    fn import_price(&self, import: (&str, &str)) -> usize {
        match import.1 {
            "cheap" => 3,
            "dear" => 5000,
            _ => 41,
        }
    }
}

fn weigher(i: &I) -> u64 {
    match i {
        I::I32Const(k) => *k as u64,
        I::Drop => 0,
        I::Block(_) => 1,
        _ => 1,
    }
}

fn module(imports: &[&str], funcs: Vec<Vec<I>>) -> Vec<u8> {
    let mut s = vec![];
    s.push(el::Section::Type(el::TypeSection::with_types(vec![el::Type::Function(
        el::FunctionType::new(vec![], vec![]),
    )])));
    if !imports.is_empty() {
        let mut e = vec![];
        for i in imports {
            // A memory import in between must not shift the function indices.
            if *i == "memory" {
                e.push(el::ImportEntry::new(
                    "svm".into(),
                    "memory".into(),
                    el::External::Memory(el::MemoryType::new(1, None)),
                ));
            } else {
                e.push(el::ImportEntry::new("svm".into(), i.to_string(), el::External::Function(0)));
            }
        }
        s.push(el::Section::Import(el::ImportSection::with_entries(e)));
    }
    s.push(el::Section::Function(el::FunctionSection::with_entries(
        funcs.iter().map(|_| el::Func::new(0)).collect(),
    )));
    s.push(el::Section::Code(el::CodeSection::with_bodies(
        funcs
            .into_iter()
            .map(|f| el::FuncBody::new(vec![], el::Instructions::new(f)))
            .collect(),
    )));
    el::serialize(el::Module::new(s)).unwrap()
}

fn price(wasm: &[u8], resolver: Rc<dyn PriceResolver>) -> Result<svm_gas::FuncPrice, String> {
    let program = Program::new(wasm, false).map_err(|e| format!("rejected: {}", e))?;
    svm_gas::validate_wasm(&program, false).map_err(|e| format!("not fixed-gas: {:?}", e))?;
    ProgramPricing::new(resolver)
        .run(&program)
        .map_err(|e| format!("pricing failed: {}", e))
}

fn check_single(c: &mut Ctx, b: &[S]) {
    c.case(
        || show(b),
        |c| {
            for w in [Weights::Sparse, Weights::Up, Weights::Down] {
                let code = emit(b, w);
                c.steps(code.len() as u64);
                let (got, want) = if w == Weights::Sparse {
                    let r = Rc::new(svm_gas::resolvers::V0PriceResolver::default());
                    let got = price(&module(&[], vec![code]), r)?.get(FuncIndex(0)) as u64;
                    (got, oracle(b, w, &|_| 1, &|_| 0))
                } else {
                    let got = price(&module(&[], vec![code]), Rc::new(Weigher))?.get(FuncIndex(0)) as u64;
                    (got, oracle(b, w, &weigher, &|_| 0))
                };
                c.state(&(show(b), w as u8));
                if got != want {
                    return Err(format!("{:?}: priced {}, the most expensive path costs {}", w, got, want));
                }
            }
            Ok(())
        },
    );
}

pub fn v15(c: &mut Ctx) {
    let mut g = Gen { memo: BTreeMap::new(), tables: true };
    check_single(c, &[]);
    for k in 1..=5 {
        g.for_each(k, &mut |b| check_single(c, b));
    }
    if c.thorough() {
        // One more level with fewer kinds of leaves.
        let mut g = Gen { memo: BTreeMap::new(), tables: false };
        g.for_each(6, &mut |b| check_single(c, b));
    }
    // Longer branch tables: the same and different labels, in every position.
    for len in 0..=3usize {
        sequences(3, len + 1, &mut |v| {
            let t: Vec<u32> = v[..len].iter().map(|x| *x as u32).collect();
            let d = v[len] as u32;
            let b = vec![S::Block(Rc::new(vec![
                S::Nops(5),
                S::Block(Rc::new(vec![S::BrTable(t, d), S::Nops(1)])),
                S::Nops(2),
            ]))];
            check_single(c, &b);
        });
    }
    // Calls: every assignment of a small body to each of up to three functions
    // whose calls form no cycle, with imports of different prices in front.
    let nf = 3u32;
    let tables: &[&[&str]] = &[&[], &["dear"], &["memory", "cheap", "dear"]];
    for imports in tables {
        let ni = imports.iter().filter(|i| **i != "memory").count() as u32;
        // `order` says who may call whom: function order[i] may call order[j], j > i.
        for order in [[0u32, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
            let shapes: usize = c.pick(7, 9);
            vh_core::product(&[shapes, shapes, 4, 3], &mut |v| {
                let mk = |pos: usize, shape: usize| -> Vec<S> {
                    let f = order[pos];
                    let a = |k: usize| -> S {
                        // the k-th callee
                        let callees: Vec<u32> = order[pos + 1..].iter().map(|x| x + ni).collect();
                        if callees.is_empty() {
                            if ni > 0 {
                                S::Call(k as u32 % ni)
                            } else {
                                S::Nops(f + 2)
                            }
                        } else {
                            S::Call(callees[k % callees.len()])
                        }
                    };
                    let imp = |k: u32| if ni > 0 { S::Call(k % ni) } else { S::Nops(3) };
                    let r = |v: Vec<S>| Rc::new(v);
                    match shape {
                        0 => vec![S::Nops(f + 1)],
                        1 => vec![a(0), S::Nops(1)],
                        2 => vec![a(1), a(0), a(0)],
                        3 => vec![S::IfElse(r(vec![a(0)]), r(vec![a(1), imp(0)]))],
                        4 => vec![imp(1), S::If(r(vec![a(0)])), imp(0)],
                        5 => vec![S::Block(r(vec![S::BrIf(0), a(1)])), a(0)],
                        6 => vec![S::Return, a(0)],
                        7 => vec![S::Block(r(vec![S::BrTable(vec![0], 1), a(1)])), a(0)],
                        _ => vec![S::IfElse(r(vec![S::Unreachable, a(0)]), r(vec![a(1)])), S::Nops(1)],
                    }
                };
                let mut bodies: Vec<Vec<S>> = vec![vec![]; nf as usize];
                bodies[order[0] as usize] = mk(0, v[0]);
                bodies[order[1] as usize] = mk(1, v[1]);
                bodies[order[2] as usize] = mk(2, v[2]);
                // A fourth, uncalled one at the end exercises every function alone.
                let w = [Weights::Sparse, Weights::Up, Weights::Down][v[3]];
                c.case(
                    || {
                        format!(
                            "{:?} {:?} {}",
                            imports,
                            w,
                            bodies.iter().map(|b| show(b)).collect::<Vec<_>>().join(" | ")
                        )
                    },
                    |c| {
                        let code: Vec<Vec<I>> = bodies.iter().map(|b| emit(b, w)).collect();
                        c.steps(code.iter().map(|x| x.len() as u64).sum());
                        let wasm = module(imports, code);
                        let prices = price(&wasm, Rc::new(Weigher))?;
                        let fi: Vec<&&str> = imports.iter().filter(|i| **i != "memory").collect();
                        let mut known: BTreeMap<u32, u64> = BTreeMap::new();
                        for (i, n) in fi.iter().enumerate() {
                            known.insert(i as u32, if **n == "cheap" { 3 } else { 5000 });
                        }
                        for f in order.iter().rev() {
                            let want = oracle(&bodies[*f as usize], w, &weigher, &|t| known[&t]);
                            let got = prices.get(FuncIndex(f + ni)) as u64;
                            c.state(&(show(&bodies[*f as usize]), want));
                            if got != want {
                                return Err(format!("function {}: priced {}, worth {}", f + ni, got, want));
                            }
                            known.insert(f + ni, want);
                        }
                        Ok(())
                    },
                );
            });
        }
    }
    // Far: many labels, much nesting, many functions, large sums.
    let r = |v: Vec<S>| Rc::new(v);
    let borders = [7u32, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300];
    for n in borders {
        // One label of a long table leads to the expensive way.
        for at in [0, 1, n / 2, n - 1, n] {
            let mut t = vec![0u32; n as usize];
            let mut d = 0;
            if at == n {
                d = 1;
            } else {
                t[at as usize] = 1;
            }
            // Label 1 skips the cheap rest, or the dear one.
            for (x, y) in [(1, 9), (9, 1)] {
                far(c, &format!("table of {} labels, other at {}, {} {}", n, at, x, y), &[
                    S::Block(r(vec![S::Block(r(vec![S::BrTable(t.clone(), d), S::Nops(50)])), S::Nops(x)])),
                    S::Nops(y),
                ]);
            }
        }
        // Nested blocks and ifs; from the innermost one out to each of some labels.
        for kind in 0..4 {
            for out in [0, 1, n / 2, n - 2, n - 1, n] {
                for last in [S::BrIf(out), S::Br(out), S::BrTable(vec![out, 0], n / 2), S::Return] {
                    let name = show(std::slice::from_ref(&last));
                    let mut b = vec![S::Nops(1), last, S::Nops(3)];
                    for k in 0..n {
                        let inner = r(b);
                        b = match (kind + if kind == 3 { k % 3 } else { 0 }) % 3 {
                            0 => vec![S::Block(inner), S::Nops(k % 5)],
                            1 => vec![S::If(inner), S::Nops(k % 3)],
                            _ => vec![S::IfElse(inner, r(vec![S::Nops(k)])), S::Nops(1)],
                        };
                    }
                    far(c, &format!("{} levels of kind {}, {}", n, kind, name), &b);
                }
            }
        }
        // Branches one after the other.
        for kind in 0..3 {
            let b: Vec<S> = (0..n)
                .map(|k| match kind {
                    0 => S::If(r(vec![S::Nops(k)])),
                    1 => S::IfElse(r(vec![S::Nops(k)]), r(vec![S::Nops(n - k)])),
                    _ => S::Block(r(vec![S::BrIf(k % 2), S::Nops(2)])),
                })
                .collect();
            far(c, &format!("{} branches of kind {}", n, kind), &b);
        }
        far(c, &format!("{} instructions", n * n), &[S::Nops(n * n), S::If(r(vec![S::Nops(n * n)])), S::Nops(n)]);
    }
    // Chains of functions, each calling the next once or twice: in either order,
    // after some imports.
    for n in borders {
        for down in [false, true] {
            for ni in [0u32, 1, 255, 256, 257] {
                for twice in 0..=n.min(45) {
                    if twice > 3 && twice % 7 != 0 && twice != n.min(45) {
                        continue;
                    }
                    c.case(
                        || format!("{} functions, downwards: {}, {} imports, the last {} call twice", n, down, ni, twice),
                        |c| {
                            let id = |i: u32| ni + if down { n - 1 - i } else { i };
                            let body = |i: u32| {
                                let mut b = vec![S::Nops(i % 7 + 1)];
                                if i + 1 < n {
                                    b.push(S::Call(id(i + 1)));
                                    if i + 1 + twice >= n {
                                        b.push(S::Call(id(i + 1)));
                                    }
                                } else if ni > 0 {
                                    b.push(S::Call(ni - 1));
                                }
                                b
                            };
                            let names: Vec<String> = (0..ni).map(|i| if i + 1 == ni { "dear".to_string() } else { "cheap".to_string() }).collect();
                            let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                            let mut code = vec![vec![]; n as usize];
                            for i in 0..n {
                                code[(id(i) - ni) as usize] = emit(&body(i), Weights::Sparse);
                            }
                            c.steps(n as u64);
                            let prices = price(&module(&names, code), Rc::new(Weigher))?;
                            let mut below = 0u64;
                            for i in (0..n).rev() {
                                let want = oracle(&body(i), Weights::Sparse, &weigher, &|t| if t < ni { 5000 } else { below });
                                let got = prices.get(FuncIndex(id(i))) as u64;
                                if got != want {
                                    return Err(format!("function {}: priced {}, worth {}", id(i), got, want));
                                }
                                below = want;
                            }
                            c.state(&(n, down, ni, twice));
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

fn far(c: &mut Ctx, what: &str, b: &[S]) {
    c.case(
        || what.to_string(),
        |c| {
            let code = emit(b, Weights::Sparse);
            c.steps(code.len() as u64);
            let r = Rc::new(svm_gas::resolvers::V0PriceResolver::default());
            let got = price(&module(&[], vec![code]), r)?.get(FuncIndex(0)) as u64;
            let want = oracle(b, Weights::Sparse, &|_| 1, &|_| 0);
            c.state(&(what.to_string(), want));
            if got != want {
                return Err(format!("priced {}, the most expensive path costs {}", got, want));
            }
            Ok(())
        },
    );
}
