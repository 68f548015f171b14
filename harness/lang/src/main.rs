mod abi;
mod codec;
mod fund;
mod gas;
mod host;
mod json;
mod sdk;

use vh_core::Prop;

fn main() {
    vh_core::main(&[
        Prop {
            id: "V09",
            rule: "state: an encoding (distinct ones counted); transition: one encoding or decoding; trace: one group of values, encoded and decoded by the code in /repo and compared with the format written down apart",
            assumptions: &[
                "fields take boundary values; lengths up to their limits, strings of one to four bytes per character",
                "a gas of zero and no gas at all are the same in this format, and aren't told apart",
                "names and inputs that are too long for the format are out of scope",
            ],
            run: codec::v09,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V10",
            rule: "state: a value that was decoded (distinct ones counted); transition: one byte string decoded; trace: one group of byte strings, decoded by the code in /repo and compared with a parser of the format written apart",
            assumptions: &[
                "all byte strings of up to 2 (quick) / 3 (thorough) bytes, and those one change away from a set of messages",
                "bytes after the end of a message are ignored; the size a section is announced with isn't compared with its real size",
            ],
            run: codec::v10,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V11",
            rule: "state: an encoded template or section (distinct ones counted); transition: one encoding or decoding of a choice of sections; trace: one template, encoded and decoded by the code in /repo in every way and compared with the format written down apart",
            assumptions: &["sections of kinds that aren't implemented (schema, API, metered gas) are out of scope"],
            run: codec::v11,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V12",
            rule: "state: a value or a sequence of values (distinct ones counted); transition: one encoding or decoding; trace: one group of values, encoded and decoded by the code in /repo and compared with the table of the ABI written down apart",
            assumptions: &[
                "numbers of 8 and 16 bits: all; of 32 bits: around the borders (quick), all (thorough); of 64 bits: around the borders of every bit and byte",
                "sequences of up to 3 values of every kind, tuples of up to 6, arrays of 0 to 11 items; arrays in arrays can't be decoded, as documented",
            ],
            run: abi::v12,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V13",
            rule: "state: an encoded document or a decoded one (distinct ones counted); transition: one document encoded or decoded; trace: one group of documents or byte strings, taken by the JSON interface in /repo and compared with the forms written down apart",
            assumptions: &[
                "documents are a set of seven with any one place, or two of their fields, replaced by one of 48 alternatives or removed, every prefix of their texts, names and input data of 0 to 258 bytes",
                "the type shown for an empty array, or for one of mixed items, isn't specified; text after the end of a document is ignored",
            ],
            run: json::v13,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V15",
            rule: "state: a function body with one of three weightings of its instructions (distinct ones counted); transition: one instruction priced; trace: one enumerated module, built as Wasm, read, validated and priced by the code in /repo and compared with the most expensive path of the syntax tree",
            assumptions: &[
                "bodies have up to 5 (quick) / 6 (thorough) control statements, longer branch tables and calls among 3 functions are enumerated separately",
                "branch conditions are taken to go either way",
            ],
            run: gas::v15,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V19",
            rule: "state: contents of a vector, a text, a pair of amounts, a variable (distinct ones counted); transition: one operation of the library; trace: one group of operations, done by the library in /repo (built without overflow checks, as templates are) and compared with a model",
            assumptions: &[
                "vectors of up to 7 items, 7 (quick) / 8 (thorough) operations, filled and emptied up to 24 / 60 items; all numbers of 8 and 16 bits, those around powers of two and of ten of 32 and 64 bits",
                "arrays of variables have up to 5 items and indexes of 32 bits, as in Wasm",
            ],
            run: sdk::v19,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V26",
            rule: "state: a value with its rendering, or a collection reached; transition: one operation of the real code compared with plain integers, byte strings and maps; trace: one batch of requests, one pair of numbers, one byte string or one sequence of operations",
            assumptions: &["border values of numbers, all bytes in short byte strings, sequences of up to 4 operations (thorough: 5); rendering of balances is unfinished and left out"],
            run: host::v26,
            max_workers: 0,
            slices: (1, 4),
        },
        Prop {
            id: "V27",
            rule: "state: contents of a template's storage and its log (distinct ones counted); transition: one call; trace: one sequence of calls to a template that the SDK's macros in /repo expand, run on the SDK's mock and compared with a model",
            assumptions: &[
                "one template: 3 constructors, 6 endpoints, 4 hooks, and 10 amounts of coins in sequences of up to 3 calls, 3 amounts in sequences of up to 4 (quick) / 5 (thorough)",
                "on the SDK's mock: the runtime doesn't offer the value of a call to templates",
            ],
            run: fund::v27,
            max_workers: 0,
            slices: (1, 1),
        },
    ]);
}
