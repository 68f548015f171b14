mod admit;
mod chain;
mod crash;
mod env;
mod ffi;
mod fields;
mod genesis;
mod io;
mod mem;
mod msg;
mod store;
mod threads;
mod tpl;
mod tpl_table;
mod vars;

use vh_core::Prop;

fn main() {
    vh_core::main(&[
        Prop {
            id: "V01",
            rule: "state: an abstract versioned map (all layers, saved and dirty changes) reached; transition: one operation executed on the real store; trace: one operation history, after which every key is read now and at every layer",
            assumptions: &["one process drives the in-memory store, pinned to one CPU"],
            run: store::v01,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V02",
            rule: "state: the contents of a committed layer; transition: one operation executed on the real store; trace: one history whose every layer's fingerprint is compared with that of the same contents written at once into a fresh store",
            assumptions: &["one process drives the store, pinned to one CPU", "Blake3 collisions are not considered"],
            run: store::v02,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V03",
            rule: "state: a disk image a crash can leave behind, or an I/O call made to fail; transition: one operation or one reopening of an image; trace: one operation history run on the real store with all its I/O recorded, every image of it reopened by the real store",
            assumptions: &[
                "writes that were not synced may be lost, torn or reordered; synced ones are durable; removals reach the disk in order",
                "SQLite's shared-memory index is rebuilt after a crash",
            ],
            run: crash::v03,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V14",
            rule: "state: a call graph with its constructs; transition: one validation by the real code; trace: one program, whose verdict is compared with reachability in the enumerated graph, and whose reported cycle is checked edge by edge",
            assumptions: &["all graphs over at most 4 functions (thorough: and all over 5 without functions that call themselves), plus rings, lassos and dense graphs of more; ten ways to embed a call"],
            run: admit::v14,
            max_workers: 0,
            slices: (1, 16),
        },
        Prop {
            id: "V16",
            rule: "state: an instruction at a place, an export table, a number of functions or a byte replaced; transition: one validation (or deployment and spawn) by the real code; trace: one module with the verdict expected",
            assumptions: &["all instructions of WebAssembly 1.0 at ten places; other modules are reached as changes of one byte (thorough: two neighbouring bytes) of a small one"],
            run: admit::v16,
            max_workers: 0,
            slices: (1, 12),
        },
        Prop {
            id: "V04",
            rule: "state: a modelled chain (accounts with balances and variables, templates, layers) reached; transition: one transaction run by the real runtime and by the model, after which receipt and chain are compared; trace: one history of transactions, replayed without its failing transactions to compare the fingerprints",
            assumptions: &["transactions run scripts of at most three steps on templates of the harness, in-memory store, one CPU"],
            run: chain::v04,
            max_workers: 0,
            slices: (4, 40),
        },
        Prop {
            id: "V05",
            rule: "state: a modelled chain (accounts with balances and variables, templates, layers) reached; transition: one transaction run by the real runtime and by the model, after which receipt and chain are compared; trace: one history of transactions; the sum of all the balances is taken before and after",
            assumptions: &["transactions run scripts of at most three steps on templates of the harness, in-memory store, one CPU"],
            run: chain::v05,
            max_workers: 0,
            slices: (4, 40),
        },
        Prop {
            id: "V06",
            rule: "state: a modelled chain (accounts with balances and variables, templates, layers) reached; transition: one transaction run by the real runtime and by the model, after which receipt and chain are compared; trace: one history of transactions",
            assumptions: &["transactions run scripts of at most three steps on templates of the harness, in-memory store, one CPU"],
            run: chain::v06,
            max_workers: 0,
            slices: (4, 60),
        },
        Prop {
            id: "V07",
            rule: "state: a modelled chain (accounts with balances and variables, templates, layers) reached; transition: one transaction run by the real runtime and by the model, after which receipt and chain are compared; trace: one history of transactions",
            assumptions: &["transactions run scripts of at most three steps on templates of the harness, in-memory store, one CPU"],
            run: chain::v07,
            max_workers: 0,
            slices: (4, 40),
        },
        Prop {
            id: "V08",
            rule: "state: what two runtimes behind the C interface show (layers, fingerprints, accounts, uncommitted changes, number of runtimes); transition: one call of a C function, whose result is compared byte for byte with a twin runtime driven directly, after which everything is read back through the C interface; trace: one history of calls",
            assumptions: &["pointers given are those of a runtime, destroyed, null or made up; buffers are as long as the interface says", "one thread calls, one CPU"],
            run: ffi::v08,
            max_workers: 0,
            slices: (4, 40),
        },
        Prop {
            id: "V17",
            rule: "state: a modelled chain (accounts with balances and variables, templates, layers) reached; transition: one transaction run by the real runtime and by the model, after which receipt and chain are compared; trace: one history of transactions",
            assumptions: &["transactions run scripts of at most three steps on templates of the harness, in-memory store, one CPU", "the prices of functions are those checked by V15"],
            run: chain::v17,
            max_workers: 0,
            slices: (4, 40),
        },
        Prop {
            id: "V20",
            rule: "state: a modelled chain (accounts with balances and variables, templates, layers) reached; transition: one transaction run by the real runtime and by the model, after which receipt and chain are compared; trace: one history of transactions",
            assumptions: &["transactions run scripts of at most three steps on templates of the harness, in-memory store, one CPU"],
            run: chain::v20,
            max_workers: 0,
            slices: (4, 40),
        },
        Prop {
            id: "V18",
            rule: "state: a layout with the writes made to it; transition: one write by the real account storage, after which every byte of every variable of two accounts is compared; trace: one layout with all the writes enumerated for it",
            assumptions: &["layouts of up to three variables around the borders of segments, some longer ones; variables have at least one byte", "in-memory store, one CPU"],
            run: vars::v18,
            max_workers: 0,
            slices: (1, 1),
        },
        Prop {
            id: "V21",
            rule: "state: an endpoint with its arguments, a variable with the value written, a sequence of logging calls or a sequence of allocations; transition: one call of a compiled template on the real runtime, after which what it returned and logged and all variables are compared; trace: one template (or sequence) with all the calls enumerated for it",
            assumptions: &["templates are those of harness/templates, compiled by the SDK of the tree with the options of the repository's own templates", "templates are deployed without being validated, as the library's decoding has loops", "in-memory store, one CPU"],
            run: tpl::v21,
            max_workers: 0,
            slices: (1, 8),
        },
        Prop {
            id: "V22",
            rule: "state: a template's metadata, or a JSON document; transition: one run of the command line tool, whose output is decoded and compared; trace: one template or document",
            assumptions: &["templates are those of harness/templates, compiled by the SDK of the tree", "the decoding of binary messages is checked by V09 to V11"],
            run: tpl::v22,
            max_workers: 0,
            slices: (1, 8),
        },
        Prop {
            id: "V23",
            rule: "state: the fields of an account or the sections of a template with the changes made to them; transition: one creation or change by the real storage (or one deployment by the runtime), after which all fields and sections of it and its neighbours are compared; trace: one creation with the changes that follow, saved, committed, rewound",
            assumptions: &["field values are borders of their types; sections are those a message may have", "in-memory store, one CPU"],
            run: fields::v23,
            max_workers: 0,
            slices: (1, 4),
        },
        Prop {
            id: "V24",
            rule: "state: a set of genesis templates with the history after it; transition: opening the store or one operation on it, after which all the templates are read now and at the genesis layer; trace: one history",
            assumptions: &["up to four templates", "one CPU"],
            run: genesis::v24,
            max_workers: 0,
            slices: (1, 4),
        },
        Prop {
            id: "V25",
            rule: "state: how a transaction ends (malformed, or what its receipts say); transition: one validation, call, verification or spawn by the real runtime, after which layer, fingerprint and account are compared; trace: one message, read by an independent parser, with the ends expected",
            assumptions: &["messages are those of ten calls and five spawns with one byte changed, added or removed, with two bytes changed (quick: near ones, of four calls and three spawns), cut anywhere, and with parts of border lengths", "the template called returns its input; in-memory store, one CPU"],
            run: msg::v25,
            max_workers: 0,
            slices: (1, 8),
        },
        Prop {
            id: "V28",
            rule: "state: a schedule of a program of several threads (or an order of their calls); transition: one execution of the real code under a schedule; trace: one program, in every schedule up to the bound, whose outcome must be that of its calls in some order (or, for threads with runtimes of their own, of each thread alone)",
            assumptions: &[
                "preemptions at calls and at the locks (of the C library) that more than one thread takes; up to 2 (thorough: 3) preemptions in calls of the C interface; sequentially consistent memory",
                "2 or 3 threads with 1 or 2 calls in the schedules over locks, 5 calls (each way to merge them) otherwise",
            ],
            run: threads::v28,
            max_workers: 0,
            slices: (1, 1),
        },
    ]);
}
