#!/usr/bin/env python3
"""Generates harness/templates (templates written with the SDK) and the table of
them in harness/rt/src/tpl_table.rs. Run by hand; the output is committed."""
import os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
T = os.path.join(H, "templates")
PRIMS = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "Amount", "Address"]
CHUNKS = 11
ARR = [1, 2, 3, 10]

def src(name, body, storage="", uses=""):
    with open(os.path.join(T, "examples", name.lower() + ".rs"), "w") as f:
        f.write(f"""// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{{template, Address, Amount}};
{uses}
#[template]
mod {name} {{
{storage}
    #[ctor]
    fn initialize() {{}}

{body}}}
""")

names = []

# All pairs of parameters, all arrays, and more parameters than registers.
for i, a in enumerate(PRIMS):
    b = ""
    for j, c in enumerate(PRIMS):
        b += f"    #[endpoint]\n    fn pair_{j}(a: {a}, b: {c}) -> ({c}, {a}) {{\n        (b, a)\n    }}\n\n"
    b += f"    #[endpoint]\n    fn one(a: {a}) -> {a} {{\n        a\n    }}\n\n"
    b += f"    #[endpoint]\n    fn drop(_a: {a}) {{}}\n\n"
    for n in ARR:
        b += f"    #[endpoint]\n    fn arr_{n}(a: [{a}; {n}]) -> [{a}; {n}] {{\n        a\n    }}\n\n"
    b += f"    #[endpoint]\n    fn mix(a: [{a}; 2], b: Address, c: [{a}; 3], d: Amount) -> (Amount, [{a}; 3], Address, [{a}; 2]) {{\n        (d, c, b, a)\n    }}\n\n"
    many = [PRIMS[(i + k) % len(PRIMS)] for k in range(10)]
    b += f"    #[endpoint]\n    fn many({', '.join(f'a{k}: {t}' for k, t in enumerate(many))}) -> ({many[9]}, {many[0]}, {many[5]}) {{\n        (a9, a0, a5)\n    }}\n\n"
    src(f"P{i}", b); names.append(f"P{i}")

# Everything that can be returned of four addresses.
b = ""
for i in range(4):
    b += f"    #[endpoint]\n    fn a{i}(a0: Address, a1: Address, a2: Address, a3: Address) -> Address {{\n        a{i}\n    }}\n\n"
    for j in range(4):
        b += f"    #[endpoint]\n    fn a{i}{j}(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {{\n        (a{i}, a{j})\n    }}\n\n"
        for k in range(4):
            b += f"    #[endpoint]\n    fn a{i}{j}{k}(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {{\n        (a{i}, a{j}, a{k})\n    }}\n\n"
src("A", b); names.append("A")

# Storage: a cyclic sequence in which every kind follows every kind.
K = 2 * len(PRIMS)
def euler():
    out = {v: list(range(K)) for v in range(K)}
    stack, path = [0], []
    while stack:
        v = stack[-1]
        if out[v]:
            stack.append(out[v].pop())
        else:
            path.append(stack.pop())
    return path[::-1]
seq = euler()
assert len(seq) == K * K + 1 and len(set(zip(seq, seq[1:]))) == K * K
step = K * K // CHUNKS
table = []
# The last ones: long arrays, and types with their paths.
FULL = [(9, 0), (10, 0), (9, 3), (0, 0), (10, 2), (9, 0)]
LONG = [(2, 300), (10, 20), (4, 0), (0, 257), (9, 66), (5, 10), (3, 0)]
for c in range(CHUNKS + 2):
    given = [LONG, FULL][c - CHUNKS] if c >= CHUNKS else None
    kinds = [k for k, _ in given] if given else seq[c * step:(c + 1) * step + 1]
    fields, st, b = [], "    #[storage]\n    struct Storage {\n", ""
    for n, k in enumerate(kinds):
        t = PRIMS[k % len(PRIMS)]
        if c > CHUNKS and t.startswith("A"):
            t = "svm_sdk::" + t
        length = given[n][1] if given else 0 if k < len(PRIMS) else 1 + (n + c) % 3
        r = "&" if t.endswith("Address") else ""
        if length:
            st += f"        f{n}: [{t}; {length}],\n"
            b += f"    #[endpoint]\n    fn set_f{n}(i: u32, v: {t}) {{\n        Storage::set_f{n}(i as usize, {r}v);\n    }}\n\n"
            b += f"    #[endpoint]\n    fn get_f{n}(i: u32) -> {t} {{\n        Storage::get_f{n}(i as usize)\n    }}\n\n"
        else:
            st += f"        f{n}: {t},\n"
            b += f"    #[endpoint]\n    fn set_f{n}(v: {t}) {{\n        Storage::set_f{n}({r}v);\n    }}\n\n"
            b += f"    #[endpoint]\n    fn get_f{n}() -> {t} {{\n        Storage::get_f{n}()\n    }}\n\n"
        fields.append((k % len(PRIMS), length))
    st += "    }\n"
    src(f"S{c}", b, st); names.append(f"S{c}")
    table.append(fields)

# Logs, failures, helpers, several constructors.
with open(os.path.join(T, "examples", "l.rs"), "w") as f:
    f.write("""// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};
use svm_sdk_std::{StringBuilder, ToString as Text};

#[template]
mod L {
    #[storage]
    struct Storage {
        n: u32,
        who: Address,
        log: [u64; 2],
    }

    #[ctor]
    fn initialize() {}

    #[ctor]
    fn with_n(n: u32) {
        Storage::set_n(n);
    }

    fn bump(by: u32) -> u32 {
        let n = Storage::get_n() + by;
        Storage::set_n(n);
        n
    }

    #[endpoint]
    fn add(by: u32) -> u32 {
        bump(by)
    }

    #[endpoint]
    fn add_twice(by: u32) -> (u32, u32) {
        (bump(by), bump(by))
    }

    #[endpoint]
    fn keep_if(b: bool, who: Address, v: u64) {
        Storage::set_who(&who);
        Storage::set_log(1, v);
        if !b {
            panic!();
        }
        Storage::set_n(7);
    }

    #[endpoint]
    fn log_number(n: u32) {
        svm_sdk::log(&Text::to_string(&n));
    }

    #[endpoint]
    fn log_amount(n: Amount) {
        svm_sdk::log(&Text::to_string(&n));
    }

    #[endpoint]
    fn log_address(a: Address) {
        svm_sdk::log(&Text::to_string(&a));
    }

    #[endpoint]
    fn log_built(a: u8, b: u64) -> u64 {
        let mut sb = StringBuilder::with_capacity(64);
        let a = Text::to_string(&a);
        let b2 = Text::to_string(&b);
        sb.push_str(&a);
        sb.push_str(&b2);
        svm_sdk::log(&sb.build());
        svm_sdk::log(&a);
        b
    }

    #[endpoint]
    fn log_host(code: u8, fail: bool) {
        use svm_sdk::traits::Host;
        svm_sdk::host::ExtHost.log("first", code);
        svm_sdk::host::ExtHost.log("", code);
        if fail {
            panic!();
        }
        svm_sdk::host::ExtHost.log("and third", code);
    }
}
""")
names.append("L")

with open(os.path.join(T, "Cargo.toml"), "w") as f:
    f.write("""# Generated by tools/gen_templates.py
[package]
name = "vh-templates"
version = "0.0.0"
edition = "2021"
publish = false

[workspace]

[lib]
path = "lib.rs"

[dependencies]
svm-sdk = { path = "/repo/crates/wasm/sdk", features = ["static-alloc", "meta"] }
svm-sdk-std = { path = "/repo/crates/wasm/sdk-std", features = ["static-alloc"], default-features = false }

[profile.release]
opt-level = "z"
panic = "abort"
lto = true
debug = false
overflow-checks = false
debug-assertions = false
incremental = false
""")
    for n in names:
        f.write(f'\n[[example]]\nname = "{n.lower()}"\npath = "examples/{n.lower()}.rs"\ncrate-type = ["cdylib"]\n')
open(os.path.join(T, "lib.rs"), "w").write("// The templates are examples of this package.\n")

with open(os.path.join(H, "rt", "src", "tpl_table.rs"), "w") as f:
    f.write("//! Generated by tools/gen_templates.py\n\n")
    f.write(f"pub const PRIMS: &[&str] = &{str(PRIMS).replace(chr(39), chr(34))};\n\n")
    f.write(f"pub const ARRAYS: &[usize] = &{ARR};\n\n")
    f.write("/// The fields (primitive, length of the array or 0) of the templates `S0`, `S1`...\n")
    f.write("pub const STORAGE: &[&[(usize, u32)]] = &[\n")
    for fields in table:
        f.write("    &[" + ", ".join(f"({a}, {b})" for a, b in fields) + "],\n")
    f.write("];\n")
