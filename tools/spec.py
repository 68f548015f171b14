#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "crates/host/"
W = "crates/wasm/"
P = []   # (property dict, technique, level, level_note)

def prop(id, title, statement, over, qtext, why, files, mech, technique, level, note, state=(), observe=()):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        anchors["observe_at"] = list(observe)
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors},
              technique, level, note))

prop("V01", "The state store is a versioned map that can be rewound",
     "Reading a key gives what was last written to it, through any mix of writes, saving or discarding of pending changes, commits of layers and rewinds; reading it as of an earlier layer gives what that layer held. Rewinding to a layer brings back exactly its contents, and asking for a layer that doesn't exist is an error that leaves the store as it was and usable.",
     ["histories"],
     "every sequence of writes (two keys, two values), save, discard, commit, rewind to any layer and historical reads, up to the depth explored",
     "The tests run a handful of fixed histories; the interplay of dirty, saved, committed and rewound changes needs every order of the operations.",
     [H + "state/src/storage.rs", H + "state/src/lib.rs", H + "state/src/error.rs"],
     [("commit, checkpoint, rollback, rewind, get", H + "state/src/storage.rs"), ("historical query parameter", H + "state/src/global_state.rs")],
     "explicit-state: all operation sequences on the real store against a versioned-map model", "model_checking",
     "All sequences up to a depth on the real SQLite-backed store (in memory), every key read now and at every layer after each.",
     state=[("layers", "contents committed per layer"), ("saved and dirty changes", "pending writes")],
     observe=[H + "state/src/storage.rs"])

prop("V02", "A layer's fingerprint depends on its contents alone",
     "Two stores that hold the same contents report the same fingerprint, whatever history led to them: writes repeated, overwritten or discarded, layers committed and rewound in between. Stores whose contents differ report different fingerprints.",
     ["histories"],
     "every history up to the depth explored over three keys and several values, compared with the same contents written at once",
     "Tests compare single fingerprints; independence of the history needs all histories that lead to the same contents.",
     [H + "state/src/storage.rs", H + "hash/src/lib.rs"],
     [("fingerprint of a layer", H + "state/src/storage.rs")],
     "explicit-state: all histories grouped by contents, fingerprints of the real store compared", "model_checking",
     "All histories up to a depth on the real store; equal contents must give equal fingerprints and different contents different ones.",
     observe=[H + "state/src/storage.rs"])

prop("V03", "Committed layers survive crashes, I/O errors and reopening",
     "When a state database is reopened after a crash at any moment, or after a write or sync failed, it holds exactly the layers that were committed: all those whose commit had been reported, at most the one in progress besides, each complete, and none that was rewound before. A reopened store carries on where it was, with the same contents and fingerprints.",
     ["crash_points", "histories", "fault_sequences"],
     "every write, sync, truncation and removal that the store issues in a set of histories: crash after it, with unsynced writes kept, lost, torn or reordered; or failure of that call",
     "Tests never crash or reopen a database, nor make I/O fail.",
     [H + "state/src/storage.rs"],
     [("commit in one SQL transaction", H + "state/src/storage.rs"), ("opening of a database", H + "state/src/storage.rs")],
     "exhaustive crash-point and I/O-fault enumeration on the real store (libc I/O recorded by interposition)", "fault_enumeration",
     "Every crash image of the recorded I/O (prefix, torn, lost and reordered unsynced writes) reopened by the real code, and every I/O call failed once.",
     observe=[H + "state/src/storage.rs"])

chain = "explicit-state: all transaction histories over an alphabet, the real runtime compared with a reference model after every transaction"

prop("V04", "A failed transaction leaves no trace",
     "A deploy, spawn, call, verification, transfer or rewind that fails, for whatever reason and after whatever it changed until then, leaves every account, variable, template and layer as before, and nothing of it shows up in later transactions or fingerprints. Missing accounts and templates, functions that aren't there, and code that traps are reported with a failing receipt.",
     ["histories", "programs"],
     "every way to fail found in the code, at every step of a script of up to three, in every history of up to three transactions mixed with successful ones",
     "Tests look at the receipts of single failing transactions, not at what is left behind nor at what comes later.",
     [H + "runtime/src/runtime/runtime.rs", H + "runtime/src/vmcalls/transfer.rs", H + "state/src/storage.rs"],
     [("rollback on failure", H + "runtime/src/runtime/runtime.rs"), ("failing receipts", H + "runtime/src/runtime/runtime.rs")],
     chain, "model_checking",
     "All histories of up to three transactions with at least one failing, compared with a model and with the history without the failing ones.",
     observe=[H + "runtime/src/runtime/runtime.rs"])

prop("V05", "Transactions neither create nor destroy coins",
     "The sum of all balances changes only when coins are given to an account from outside, and then by exactly that amount. A transfer moves exactly its amount from the sender to the recipient, and is refused as a whole when the sender has too little, the recipient would overflow, or one of them doesn't exist.",
     ["histories", "inputs"],
     "every pair of accounts (also the same one twice, and one that doesn't exist), amounts at and around all the balances and limits, by every way to transfer, in sequences within and over transactions with failures, commits and rewinds",
     "Tests transfer between two different accounts with enough coins.",
     [H + "runtime/src/vmcalls/transfer.rs", H + "runtime/src/runtime/runtime.rs", H + "state/src/account_storage.rs"],
     [("transfers", H + "runtime/src/vmcalls/transfer.rs"), ("increase_balance, transfer", H + "runtime/src/runtime/runtime.rs")],
     chain, "model_checking",
     "All combinations of accounts and boundary amounts by every way to transfer, and sequences of two (thorough: three).",
     observe=[H + "runtime/src/runtime/runtime.rs"])

prop("V06", "Accounts don't reach into each other",
     "A transaction on an account changes the variables of that account alone, and of them only those it writes; the balances it changes are those of the accounts it transfers between, and coins are taken only from accounts that take part in it. Other accounts, also those of the same template, templates and names stay as they are.",
     ["histories", "programs"],
     "every history of spawns, calls that write variables, transfers, commits and rewinds over five accounts of two templates, up to the depth explored, all accounts read in full after each",
     "Tests read back the one variable they wrote.",
     [H + "state/src/account_storage.rs", H + "runtime/src/vmcalls/storage.rs", H + "runtime/src/runtime/runtime.rs"],
     [("keys of variables", H + "state/src/account_storage.rs"), ("storage of the running account", H + "runtime/src/func_env.rs")],
     chain, "model_checking",
     "All histories up to depth three (thorough: four), every account, variable, name and template compared with the model after each transaction.",
     observe=[H + "state/src/account_storage.rs"])

prop("V07", "Functions run only with the rights of their kind",
     "Constructors run only when spawning and only those the template declares; other functions run only by calls and only if exported with the right signature. While an account verifies a transaction, or allocates memory for its input, it can neither read nor write variables nor move coins, whatever it tries and in whichever order; afterwards access is as before.",
     ["programs", "histories"],
     "every script of up to three steps run within verification and allocation, every exported and missing function by spawn and by call, before and after others",
     "Tests try one access in verification.",
     [H + "runtime/src/runtime/runtime.rs", H + "runtime/src/func_env.rs", H + "runtime/src/vmcalls/storage.rs"],
     [("access of the function's environment", H + "runtime/src/func_env.rs"), ("constructors", H + "runtime/src/runtime/runtime.rs")],
     chain, "model_checking",
     "All scripts of up to three steps under denied access, and all functions by every kind of transaction.",
     observe=[H + "runtime/src/runtime/runtime.rs"])

prop("V08", "The C interface mirrors the runtime and never brings the process down",
     "Through the C interface every operation gives the result, the receipt (byte for byte), the account data and the layer that the runtime itself gives; a panic of the runtime comes out as an error, and messages that are empty or cut short never crash the process. Runtimes are independent of each other. A handle is valid from its creation, which needs svm_init, until it is destroyed: destroyed, null and made-up handles give errors, the count of runtimes is right at any time, a failed creation affects nothing, and a destroyed runtime lets go of its database.",
     ["histories", "inputs"],
     "every history of two calls of any kind on a runtime with accounts, on an empty one and on none; life cycles of two runtimes up to the depth explored; two runtimes side by side; databases on disk closed and reopened",
     "Tests run three straight histories on one runtime.",
     [H + "runtime-ffi/src/c_api.rs", H + "runtime-ffi/src/resource_tracker.rs", H + "runtime-ffi/src/result.rs"],
     [("C functions", H + "runtime-ffi/src/c_api.rs"), ("table of runtimes", H + "runtime-ffi/src/resource_tracker.rs"), ("results handed out", H + "runtime-ffi/src/result.rs")],
     "explicit-state: all call histories on the real C interface against a twin runtime and a count of handles", "model_checking",
     "All histories of two calls over fifty kinds (thorough: also on empty runtimes, life cycles of four), results and everything readable compared with a twin after each.",
     state=[("handles", "runtimes alive and destroyed"), ("twin", "the same runtime driven directly")],
     observe=[H + "runtime-ffi/src/c_api.rs"])

prop("V09", "Transactions, envelopes, contexts and receipts survive their encoding",
     "Envelopes, contexts, deployments, spawns, calls and receipts, successful and failed, of any contents that fit the format, are encoded into exactly the documented bytes and decoded from them into the same value, consuming exactly what was written; so two different values never share an encoding, and equal ones always do. Error messages that are too long for a receipt are shortened to at most 255 bytes, at the border of a character.",
     ["inputs"],
     "values of every field at its limits, all kinds of errors, logs, touched accounts and strings of every length up to the limits of the format, in combination",
     "Tests encode one or two messages of each kind and only compare them with what the same code decodes.",
     [H + "codec/src/codec.rs", H + "codec/src/ext.rs", H + "codec/src/receipt"],
     [("encoding and decoding", H + "codec/src/codec.rs"), ("receipts and errors", H + "codec/src/receipt")],
     "exhaustive enumeration of messages over border values, the real codec compared with a reference encoder", "model_checking",
     "All combinations of border values per message, bytes compared with an encoder written from the documented format, decoded and compared with the value.",
     observe=[H + "codec/src/codec.rs"])

prop("V10", "Malformed messages are refused",
     "Decoding any bytes as a transaction, envelope, context, receipt, template or section ends with a value or an error: it never crashes, nor takes memory out of proportion to the message. Exactly the well-formed messages are accepted: those cut short, with strings that aren't UTF-8, unknown kinds, versions or flags are refused.",
     ["inputs"],
     "all short byte strings, and every message of a set with any prefix cut, any byte changed to any other, bytes inserted or removed, any length field set to its limits",
     "Tests decode what they encoded, and a few missing fields.",
     [H + "codec/src/codec.rs", H + "codec/src/receipt", H + "codec/src/section", H + "codec/src/template.rs"],
     [("decoding", H + "codec/src/codec.rs"), ("sections", H + "codec/src/section")],
     "exhaustive enumeration of short and mutated byte strings, verdicts of the real decoder compared with a reference parser", "model_checking",
     "All byte strings of up to two bytes (thorough: three) and all one-byte changes, cuts, insertions and removals of a set of messages (thorough: all pairs in the short ones), memory bounded.",
     observe=[H + "codec/src/codec.rs"])

prop("V11", "Templates survive their encoding",
     "A template of any sections is encoded into the documented format and decoded into the same template, whichever of its sections are there and in whichever order they were added. Decoding a choice of sections gives exactly those of the chosen kinds that the template has. What the format can't hold is refused, never encoded into something else.",
     ["inputs"],
     "all subsets and orders of the sections, contents of every section at the limits, all choices of sections to decode",
     "Tests encode two templates, all sections present.",
     [H + "codec/src/section", H + "codec/src/template.rs", H + "types/src/template"],
     [("sections", H + "codec/src/section"), ("templates", H + "codec/src/template.rs")],
     "exhaustive enumeration of templates, the real codec compared with a reference encoder", "model_checking",
     "All subsets and orders of sections with contents at their limits, each decoded with every choice of sections.",
     observe=[H + "codec/src/template.rs"])

prop("V12", "Values survive the ABI between clients and templates",
     "Every value of the ABI (booleans, numbers of all widths, amounts, addresses, arrays of up to ten items, several values in a row) is encoded into exactly the documented bytes, takes the size announced for it, and is decoded from them into the same value, whichever way it is read. Bytes that stand for no value, or end too early, give an error, and nothing beyond them is read.",
     ["inputs"],
     "all numbers of 8 and 16 bits, those around all borders of 32 and 64 bits, arrays and tuples of every length and kind, all short byte strings and all cuts and one-byte changes of longer ones",
     "Tests encode some values of each type; numbers are packed by their size, so each border of each type has a form of its own.",
     [W + "abi-encoder/src", W + "abi-decoder/src", W + "abi-layout/src"],
     [("encoding of values and their sizes", W + "abi-encoder/src/types"), ("decoding", W + "abi-decoder/src/decoder.rs"), ("markers", W + "abi-layout/src")],
     "exhaustive enumeration of values and byte strings, the real encoder and decoder compared with the table of the ABI written apart", "model_checking",
     "All 8- and 16-bit numbers (thorough: all 32-bit ones), border values, arrays of 0 to 11 items, sequences of up to 3 values; all byte strings of up to 2 bytes, all cuts and one-byte changes.",
     observe=[W + "abi-decoder/src/decoder.rs"])

prop("V13", "The JSON interface says what the binary one does",
     "A call, spawn or input data written as JSON is encoded into exactly the bytes it stands for, and decoding them gives the same document back; receipts of any contents are shown as they are, field by field. A document that is malformed, that lacks a field, or whose values don't fit their types or the binary format is refused with an error: never encoded with something left out, and never a crash. The same goes for the buffers through which JavaScript clients use it.",
     ["inputs"],
     "all types with all border numbers, arrays and tuples; every place of a set of documents, and every two of their fields, replaced by one of 48 alternatives or removed; every prefix of their texts; names and data of every length up to beyond the limit; every cut and one-byte change of transactions and receipts; all sequences of buffer operations",
     "Tests encode and decode one document of each kind; the ways a document can be wrong, and the values that don't fit, are countless.",
     [H + "codec/src/api/json", H + "codec/src/api/wasm"],
     [("encoding and decoding of documents", H + "codec/src/api/json"), ("buffers", H + "codec/src/api/wasm/buffer.rs"), ("types and values of input data", H + "codec/src/api/json/inputdata.rs")],
     "exhaustive enumeration of documents and byte strings, the real interface compared with the forms written apart", "model_checking",
     "All single and double replacements in seven documents, all prefixes, all border numbers per type, lengths 0 to 258, byte strings of up to 2 bytes (thorough: 3), all one-byte changes, buffer operations to depth 5 (thorough: 6).",
     observe=[H + "codec/src/api/json/mod.rs", H + "codec/src/api/wasm/mod.rs"])

prop("V14", "Fixed-gas code with loops, recursion or indirect calls is rejected",
     "A template whose gas is fixed is accepted only if none of its functions loops, calls indirectly, or can reach itself by calls, directly or through others; it is accepted whenever that is so. A rejection for recursion names a cycle of calls that is really there.",
     ["programs"],
     "every call graph over the functions explored, in every order, with calls placed in any construct",
     "Tests have a few graphs; a missed cycle needs a particular shape and order of functions.",
     [H + "gas/src/lib.rs", H + "gas/src/validation.rs", H + "gas/src/graph/sort.rs", H + "gas/src/detect_loops.rs", H + "gas/src/call_graph/builder.rs"],
     [("validation of fixed-gas programs", H + "gas/src/validation.rs"), ("search for cycles", H + "gas/src/graph/sort.rs")],
     "exhaustive enumeration of call graphs, verdicts of the real validation compared with graph reachability", "model_checking",
     "All call graphs over four functions (thorough: five), built as Wasm and validated by the real code.",
     observe=[H + "gas/src/lib.rs"])

prop("V15", "The price of a function is that of its most expensive path",
     "The price of a function is the largest sum of the prices of instructions along any path through it, with the prices of the functions it calls included: no execution costs more, and there is a path that costs as much. Code that can't be reached costs nothing.",
     ["programs"],
     "every function body of nested blocks, conditionals, branches, branch tables, returns and traps up to the size explored, with several prices of instructions",
     "Tests price about ten bodies; the way branches leave several nested blocks needs all of them.",
     [H + "gas/src/cfg/builder.rs", H + "gas/src/pricing/mod.rs", H + "gas/src/pricing/cfg.rs", H + "gas/src/graph/sort.rs"],
     [("control flow graph", H + "gas/src/cfg"), ("maximum path", H + "gas/src/pricing")],
     "exhaustive enumeration of function bodies, the real pricing compared with all paths of the syntax tree", "model_checking",
     "All bodies up to a number of control statements, under three weightings.",
     observe=[H + "gas/src/lib.rs"])

prop("V16", "Only sound, deterministic code gets deployed",
     "A deployment is accepted only if its code is valid WebAssembly without floating-point instructions, wherever they stand, with exports that name its own functions and no more functions than the limit; all other valid code is accepted. Validation and deployment of any bytes end with a verdict and never crash, and what is accepted can be spawned from, with an account or a failing receipt.",
     ["programs", "inputs"],
     "every instruction of WebAssembly 1.0 at every kind of place, export tables, numbers of functions around the limit, every change of one byte of a valid module or of its message, every cut of it, and every sequence of up to four sections",
     "Tests reject one floating-point instruction.",
     [H + "program/src/program.rs", H + "program/src/validation.rs", H + "program/src/validators.rs", H + "program/src/exports.rs", H + "runtime/src/runtime/runtime.rs", H + "gas/src/lib.rs"],
     [("reading of programs", H + "program/src"), ("validate_deploy", H + "runtime/src/runtime/runtime.rs")],
     "exhaustive enumeration of instructions, places, export tables and byte changes against the expected verdict", "model_checking",
     "Every instruction at ten places, every module one byte away (thorough: two), every message one byte away or cut, all sequences of up to 4 sections (5).",
     observe=[H + "runtime/src/runtime/runtime.rs"])

prop("V17", "Deployments and spawns are paid for",
     "A deployment goes through exactly when the gas limit covers a fixed price per byte of the transaction, and reports that as the gas used. A spawn doesn't run when its limit is below the price per byte plus the price of its constructor, and always gets to run when it is above; which other templates were deployed or spawned before makes no difference.",
     ["inputs", "histories"],
     "every gas limit around the prices and at the limits of the integers, for several templates, constructors and inputs, after other transactions",
     "Tests try plenty of gas and none.",
     [H + "runtime/src/runtime/runtime.rs", H + "runtime/src/runtime/gas_tank.rs", H + "runtime/src/runtime/price_cache.rs", H + "gas/src/lib.rs"],
     [("check of the gas of a spawn", H + "runtime/src/runtime/runtime.rs"), ("cache of prices", H + "runtime/src/runtime/price_cache.rs")],
     chain, "model_checking",
     "All limits within 40 of every price, and the extremes, with prices computed apart.",
     observe=[H + "runtime/src/runtime/runtime.rs"])

prop("V18", "Variables of an account don't overlap",
     "Each variable of an account holds exactly the bytes last written to it, whatever the sizes of the variables, wherever they lie in relation to the segments they are stored in, and in whatever order they are written; writing one changes no bit of another, nor of another account, and what was never written reads as zeros. A value that is too short for its variable, and a variable that isn't there, are refused; of one that is too long only the leading bytes count.",
     ["inputs", "histories"],
     "layouts of up to three variables of sizes around the borders of segments, longer layouts, and sequences of writes of different patterns, over commits and rewinds",
     "Tests write one or two variables within a segment.",
     [H + "state/src/account_storage.rs"],
     [("segments of variables", H + "state/src/account_storage.rs")],
     "explicit-state: all layouts and write sequences within bounds on the real account storage against a byte model", "model_checking",
     "All layouts of up to three variables over border sizes, all writes of two patterns in sequence, every byte of every variable of two accounts compared after each.",
     observe=[H + "state/src/account_storage.rs"])

prop("V19", "The template library computes exactly or aborts",
     "What templates are written with gives the mathematically right result or stops the template, never a wrong value: vectors hold exactly what was put in, never more than their capacity; texts of numbers, digits and addresses read as they should; sums, differences, products and quotients of amounts and layers are exact or abort; conversions between values and types accept exactly what fits; values stored in variables and arrays come back, without touching the others; equal values have equal hashes. The test doubles of host and storage behave like the real ones: transfers preserve the sum of balances.",
     ["inputs", "histories"],
     "every sequence of operations on vectors, strings, variables and the mock host up to the depth explored; every border number of every type under every operation and conversion; every digit",
     "Tests check one or two values per type; wrong values appear at the borders of types and after particular sequences.",
     [W + "sdk-std/src", W + "sdk-types/src", W + "sdk-storage/src", W + "sdk-host-mock/src", W + "sdk-storage-mock/src"],
     [("vectors, strings and texts", W + "sdk-std/src"), ("amounts, addresses and values", W + "sdk-types/src"), ("variables and arrays", W + "sdk-storage/src"), ("test doubles", W + "sdk-host-mock/src")],
     "exhaustive enumeration of operation sequences and border values on the real library, compared with a reference model", "model_checking",
     "Sequences of up to 7 operations on vectors (thorough: 8), filled and emptied up to 24 items (60), 3 on variables (4), 4 on the doubles (5), all pairs of border numbers of all widths, all digits, arrays of up to 4 cells of every type.",
     observe=[W + "sdk-std/src/lib.rs", W + "sdk-types/src/lib.rs", W + "sdk-storage/src/lib.rs"])

prop("V20", "Receipts tell what a transaction did",
     "The input of a transaction reaches the function byte for byte, and the receipt holds exactly the data it returned, its logs in order, the accounts it touched and the fingerprint of the state it left; a later transaction reads the values it wrote, truncated and extended as the type says. Of several pieces of data returned the last one counts; data, logs and addresses that lie partly outside of the template's memory, and data or logs beyond what a receipt can hold, fail the transaction. A failing receipt tells its logs but no results.",
     ["programs", "histories"],
     "every script of up to three steps over reads and writes of variables of all widths, logs, returned data, transfers and traps; inputs of every length; places and lengths around the borders of the pages and of the integers for every function that takes them",
     "Tests compare a few receipts.",
     [H + "runtime/src/runtime/runtime.rs", H + "runtime/src/vmcalls", H + "runtime/src/func_env.rs"],
     [("building of receipts", H + "runtime/src/runtime/runtime.rs"), ("host functions", H + "runtime/src/vmcalls")],
     chain, "model_checking",
     "All scripts of up to two steps (three of selected steps; thorough: all) by call, spawn and verification.",
     observe=[H + "runtime/src/runtime/runtime.rs"])

prop("V21", "Templates written with the SDK do on the chain what their source says",
     "A template written with the SDK and compiled to WebAssembly decodes its parameters to exactly the values the caller encoded, returns exactly the values its endpoint returns, reads from its variables and arrays what was last written there and changes no other variable, refuses an index outside of an array without a trace, and logs what it is told to log. The memory that the host hands out to a template (for the input, and on request) never overlaps and lies within the template's memory; when there is none left, the transaction fails.",
     ["programs", "inputs", "histories"],
     "templates with every pair of parameter types, every array type, everything returned of four parameters, every pair of neighbouring variables and arrays; border values of every type; every index inside and outside of arrays; every sequence of requests for memory of some sizes",
     "Tests compile three small templates and call an endpoint or two of each.",
     [W + "sdk-macros/src", W + "sdk-host-ffi/src/ext.rs", W + "sdk-storage-ffi/src/ext.rs", W + "sdk-alloc/src/lib.rs", W + "sdk-std/src/log.rs", H + "runtime/src/vmcalls/alloc.rs"],
     [("expansion of templates", W + "sdk-macros/src"), ("host functions as the SDK declares them", W + "sdk-host-ffi/src/ext.rs"), ("allocation of memory", H + "runtime/src/vmcalls/alloc.rs")],
     "exhaustive enumeration of templates, calls and allocation sequences within bounds; the templates are compiled by the real SDK and run by the real runtime, compared with a reference of the ABI and of the declared variables", "model_checking",
     "24 templates with about 1,900 endpoints cover all pairs of types; every variable of the account is compared after every call; two border values per type (thorough: all).",
     observe=[H + "runtime/src/runtime/runtime.rs", W + "sdk/src/lib.rs"])

prop("V22", "Metadata and crafted transactions say what was declared",
     "The metadata that the SDK writes for a template names every constructor, endpoint, parameter, returned type and variable as declared, with numbers and offsets that don't overlap. The command line tool turns code and metadata into the template they describe (that code, those constructors, one variable for every element), and a JSON document into the call or spawn with exactly the target, names, version and encoded values it gives. Its validation calls a module valid exactly if it has no floating-point, loop, indirect call or recursion, then tells the price of every function, and never crashes.",
     ["programs", "inputs"],
     "metadata of all the templates of V21 and of up to three variables and arrays with up to three constructors; documents with every type, arrays, border values, versions and names; modules of up to three functions with allowed and forbidden bodies",
     "Tests compare the metadata of a few templates and craft one transaction.",
     [W + "sdk-macros/src", H + "cli/src"],
     [("metadata", W + "sdk-macros/src/json.rs"), ("crafting of templates", H + "cli/src/subcmd_craft_deploy"), ("crafting of transactions", H + "cli/src/subcmd_tx.rs"), ("validation", H + "cli/src/subcmd_validate.rs")],
     "exhaustive enumeration of templates, metadata and JSON documents within bounds, put through the real SDK and the real tool and compared with a reference", "model_checking",
     "All the templates of V21, 255 shapes of metadata, about 400 documents (thorough: all pairs of types), 440 modules (thorough: 4 440).",
     observe=[H + "cli/src/main.rs"])

prop("V23", "Accounts and templates come back as they were stored",
     "The name, template, balance and counter of an account and the sections of a template are read back exactly as they were last stored: whatever their values, whatever the order of the changes, after saving, discarding, committing and rewinding, and, at an earlier layer, as they were then; changing one field, account or template changes no other. A deployed template is stored with all the sections of its message, in whatever order they came. Different codes have different template addresses, the same code has always the same; accounts of different templates have different addresses.",
     ["inputs", "histories"],
     "every combination of border values of an account's fields; every sequence of changes of balances and counters and of a template's sections up to the depth explored; every order of a message's sections; every code that differs from one in a byte or in its length",
     "Tests store one account with small numbers and one template; what goes wrong at the borders of the types, between neighbours or after discarding isn't seen.",
     [H + "state/src/account_storage.rs", H + "state/src/template_storage.rs", H + "state/src/global_state.rs", H + "types/src/template/mod.rs"],
     [("fields of accounts", H + "state/src/account_storage.rs"), ("sections of templates", H + "state/src/template_storage.rs"), ("addresses", H + "types/src/template/mod.rs")],
     "explicit-state: all field combinations and change sequences within bounds on the real storage against a model of the fields", "model_checking",
     "8 names, 3 numbers of layouts, 10 balances and 10 counters in all combinations; sequences of up to 3 changes (thorough: 5) on two accounts; 25 templates with up to 2 changes (3) between two neighbours; 24 orders of sections; 38 000 codes.",
     observe=[H + "state/src/account_storage.rs", H + "state/src/template_storage.rs"])

prop("V24", "Genesis is the same on every node and stays",
     "A new global state holds exactly the templates of its genesis configuration, with all their sections, and its fingerprint depends on them only: not on the order they are listed in, nor on where the state is stored. They remain through commits, rewinds to the first layer, discarded changes and reopening; reopening an existing state ignores the configuration given then.",
     ["inputs", "histories"],
     "every set of up to four templates with different sections in every order, in memory and on disk, and every sequence of commits, rewinds, discarded changes and reopenings up to the depth explored",
     "Tests open states with one configuration; an order of the hash map that matters, a section lost, or a template lost by a rewind isn't seen.",
     [H + "state/src/global_state.rs", H + "genesis-config/src/lib.rs", H + "state/src/template_storage.rs"],
     [("writing of genesis", H + "state/src/global_state.rs"), ("configuration", H + "genesis-config/src/lib.rs")],
     "explicit-state: all sets and orders of templates and all histories within bounds on the real store", "model_checking",
     "16 sets of templates, 65 orders three times in memory and on disk, histories of up to 3 operations (thorough: 4).",
     observe=[H + "state/src/global_state.rs"])

prop("V25", "What validation accepts is what gets executed",
     "The validation of a spawn or a call accepts exactly the well-formed messages, whatever their bytes. Every accepted one ends with a receipt: the function, constructor, account or template that the message names is the one that runs, or that the receipt says is missing or not allowed; it gets exactly the input that the message holds, and the verification exactly the verification's input. Unless it succeeds, layer, fingerprint and accounts stay as they were.",
     ["inputs"],
     "every message that differs in one byte (added, removed or changed) or in two from those of calls and spawns, cut anywhere, and with parts of every border length, run on the real runtime",
     "Tests validate and run a few well-formed messages.",
     [H + "runtime/src/runtime/runtime.rs", H + "codec/src/codec.rs", H + "types/src/error.rs"],
     [("validate_spawn, validate_call, spawn, call, verify", H + "runtime/src/runtime/runtime.rs"), ("decoding", H + "codec/src/codec.rs")],
     "exhaustive enumeration of the messages within an edit distance, each read by an independent parser and run on the real runtime", "model_checking",
     "All messages one byte away, two near bytes away (thorough: any two), of four calls and three spawns (ten and five).",
     observe=[H + "runtime/src/runtime/runtime.rs"])

prop("V26", "Queries and values of the host say what is stored",
     "A batch of storage queries gives for each request, in order, the value of the variable it names as the schema declares it (integers of any size and sign, booleans, hexadecimal texts), and nothing where variable or value are missing or don't fit the declaration; it never crashes. Amounts of gas add, subtract and compare exactly, where no limit is above every limit. Addresses, states and ids take exactly their number of bytes and print as them. Collections of sections, templates and layouts hold what was put in, each kind once. Hashes don't depend on how their input is cut. Any log can be printed.",
     ["inputs", "histories"],
     "all batches of up to three requests over schemas, all short byte strings as values of every type, pairs of border numbers, all sequences of operations on sections up to the depth explored, all layouts of up to four variables, all short logs",
     "Tests look at single values.",
     [H + "query/src/query.rs", H + "query/src/render.rs", H + "query/src/schema.rs", H + "types/src/gas/mod.rs", H + "types/src/lib.rs", H + "types/src/template/section.rs", H + "types/src/template/mod.rs", H + "types/src/receipt/log.rs", H + "layout/src/fixed.rs", H + "hash/src/lib.rs"],
     [("queries and rendering", H + "query/src"), ("gas, byte strings, sections", H + "types/src"), ("layouts", H + "layout/src/fixed.rs"), ("hashing", H + "hash/src/lib.rs")],
     "exhaustive enumeration of batches, values and operation sequences against plain integers, byte strings and maps", "model_checking",
     "Batches of up to 3 requests, values of up to 8 bytes, sequences of 4 operations on sections (thorough: 5), layouts of up to 4 variables, logs of up to 4 bytes.",
     observe=[H + "query/src/query.rs", H + "types/src/template/section.rs"])

S = "crates/wasm/sdk-macros/src/"
prop("V27", "Coins sent along run the declared funding hook, once and first",
     "When a constructor or endpoint of a template that is marked as fundable is called with coins, the hook it names (or else the template's default hook) runs exactly once, before the function's body, and sees that value; without coins, or in a function that isn't marked, no hook runs. Either way the function gets its arguments, and what it returns (also early), stores and logs is the same as if it were called plainly in that storage. The template's metadata tell which functions are constructors and which are fundable.",
     ["inputs", "histories"],
     "all sequences of calls, with and without coins, up to the depth explored, to a template with every kind of function and hook",
     "Tests call one function with one hook, once without and once with coins.",
     [S + "function/fundable.rs", S + "function/fundable_hook.rs", S + "function/endpoint.rs", S + "function/attr.rs", S + "function/mod.rs", S + "template.rs", "crates/wasm/sdk-host-mock/src/lib.rs", "crates/wasm/sdk-storage-mock/src/lib.rs"],
     [("expansion of hooks", S + "function/fundable.rs"), ("expansion of endpoints", S + "function/endpoint.rs"), ("the default hook", S + "template.rs")],
     "exhaustive enumeration of call sequences on a template that the real macros expand, against a model of its storage and log", "model_checking",
     "One template with 3 constructors, 6 endpoints and 4 hooks; 10 amounts in sequences of up to 3 calls, 3 amounts in sequences of up to 4 (thorough: 5). On the SDK's mock host, as the runtime offers templates no value of a call.",
     observe=[S + "function/fundable.rs", S + "function/endpoint.rs"])

prop("V28", "Runtimes and stores can be used from several threads at once",
     "Threads that each use a runtime of their own through the C interface get, in every interleaving, the results and receipts that each of them gets alone; a runtime may be passed from thread to thread; destroying one handle from two threads succeeds for exactly one of them, and the number of runtimes is always that of the handles that are alive. Each operation on the handles of one store (write, save, commit, discard, rewind, look at the last state or for uncommitted changes) is atomic: whatever the schedule, results and final contents are those of the operations in some sequential order. No schedule makes the threads wait for each other forever.",
     ["schedules", "histories"],
     "all the schedules of two or three threads, at the level of calls and of the locks they share, up to the number of preemptions explored",
     "The tests run each runtime and each store on one thread.",
     ["crates/host/runtime-ffi/src/c_api.rs", "crates/host/runtime-ffi/src/resource_tracker.rs", "crates/host/runtime-ffi/src/result.rs", "crates/host/state/src/global_state.rs", "crates/host/state/src/storage.rs"],
     [("the table of handles", "crates/host/runtime-ffi/src/resource_tracker.rs"), ("the store behind its lock", "crates/host/state/src/global_state.rs")],
     "stateless exploration of the real code under a controlled scheduler (locks interposed): all schedules up to a preemption bound, outcomes compared with those of the sequential orders", "model_checking",
     "Preemptions at calls and at the locks that more than one thread takes, up to 2 (thorough: 3) of them; 2 or 3 threads of 1 or 2 operations, or 2 threads of 5 calls in all orders; sequentially consistent memory. An outcome that is not allowed is reported when it occurs again under the same schedule (the threads of the database driver aren't under control).",
     observe=["crates/host/runtime-ffi/src/resource_tracker.rs", "crates/host/state/src/global_state.rs"])

NOT_APPLICABLE = []
P.sort(key=lambda p: p[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        assert len(p["title"]) <= 80, p["title"]
        for x in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), (p["id"], x)
        for m in p["anchors"]["mechanism"]:
            assert os.path.exists("/repo/" + m["where"]), (p["id"], m)
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
for p, tech, level, note in P:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "bash /verif/check.sh build", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks: the harness crates link the crates of /repo as they are. known-findings.txt lists the findings and the fixes."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
