MODEL = "Trusts the reference interpreter (harness/src/model.rs), written from the documentation and the grammar, and the typed program generator; programs are bounded in size and steps."
TECH = {
"C01": "random expression programs vs a reference interpreter, incl. unsupported operand pairings and an effect log",
"C02": "typed random programs vs a reference interpreter (result, effect log, error)",
"C03": "random loop/fold programs vs a reference interpreter, incl. secrets read back with why/where",
"C04": "random aliasing histories in typed programs vs a reference heap model",
"C05": "model-based random histories of link operations vs plain lists, with ownership counts",
"C06": "round trip of random data values and mutated text through the data writer and reader",
"C07": "round trip of random closures (operators, statements, grabbed values of every kind) and values through their printed text, compared by behaviour",
"C08": "random typed programs, each with at most one planted type fault and a fault-free twin: load verdicts, and the run-time types of the values that arrive",
"C09": "random programs over nested scopes, reference-holding containers and lifetime-annotated functions with at most one planted lifetime fault: load verdict, and accepted programs run against a model of the referenced values",
"C10": "random programs over mut/plain parameters, paths, currents and mutating calls with at most one planted mutability fault: load verdict, and the arguments' values after accepted calls",
"C11": "fuzzing: random untyped programs over every built-in and construct, host calls of every built-in with values of every kind, mutated program/data/syntax/document text; oracle: no panic or abort and the runtime still answers",
"C12": "random programs with failing operations, `?`, try and unwrap vs a reference interpreter",
"C13": "random call/failure/module histories on one runtime vs a fresh runtime and the model",
"C14": "random histories of calls, channels, threads and receives judged by a happens-before model (valid for every schedule), and go/join of random functions vs the reference interpreter",
"C15": "random module graphs (namespaces, aliases, renames, imports, transitive modules, modules made while running, external functions), built by the host or a script, vs a model of the visible function lists",
"C16": "random closure/grab programs vs a reference interpreter",
"C17": "random current-object programs and host calls vs a reference interpreter",
"C18": "random lazy signatures and effectful arguments vs a reference interpreter",
"C19": "round trips and type confusion of random host values through the runtime, scripts, host functions and the call builder, against a model of each host type",
"C20": "random calls of the string/list/object/option library (incl. wrong and out-of-range arguments) vs a reference implementation",
"C21": "random calls of the numeric/vector/matrix/colour library vs a reference implementation",
"C22": "differential testing of two builds of the tree over random programs",
"C24": "random meta syntaxes (every rule kind) with texts derived from them, the meta data known by construction; mutated texts outside the syntax; JSON of the meta data read back by an independent reader",
"C25": "random modules (external, imported and declared functions of random signatures in varied spelling) vs the listing their declarations imply; and random calls of every listed built-in function, right and wrong, vs the listed signature (load verdict, run-time type)",
"C26": "random signature lists and calls vs a model of refinement and of ad-hoc types (load verdicts, and which type a call gets)",
"C23": "metamorphic testing: random meaning-preserving rewrites (incl. renamed variables) of random programs, and programs with text that belongs to no program",
}
NOTE = {
"C24": "The syntaxes are of a form that reads every text in one way, so that the meta data is known by construction; trusts the independent JSON reader of the harness.",
"C25": "The listing is compared in full with a model of the declarations. For built-in functions the listed signature is judged against the checker and the run time, not against an independent table.",
"C11": "Finds panics and aborts reachable by generated text and values; a panic in a dependency counts. Functions that wait, read the process input, reach the network or write files are not called; multi-byte white space is left to a probe (known finding).",
"C14": "Schedules are those the operating system and generated sleeps produce, not enumerated; the model accepts exactly the orders that happens-before allows. A lost message that blocks the program is reported after 60 s.",
"C15": "Every function returns a tree of tags, so a result shows every function reached; trusts a small model of the visible lists; up to a handful of modules and names.",
"C09": "Trusts the generator's own lifetime bookkeeping, written from the documentation; bounded nesting and function counts.",
"C10": "Trusts the generator's own mutability bookkeeping; bounded paths and call depth.",
"C08": "Trusts the generator's own typing rules, written from the documentation; faults are planted at positions where the language documents a check.",
"C26": "Trusts a small independent model of matching a signature; bounded signature lists.",
"C19": "Host values of 40 types incl. dyon_obj structs; every arm of dyon_fn; trusts the model of each host type. Out-of-range integers and surplus array items are left unspecified.",
"C07": "Compares a closure with the closure read back from its text on random arguments, results and effects alike; trusts the evaluator, the subject of other properties.",
"C05": "Random operation histories on the Link API and generated Dyon link programs against Vec models; trusts the generator to reach the block boundary (class counts in evidence).",
"C06": "Random values up to a bounded nesting; text mutations; trusts f64/char equality.",
"C20": "Random arguments against an independent reimplementation of each library function; trusts that reimplementation.",
"C21": "Random arguments (incl. edge floats) against an independent reimplementation; exact where the operation is exact, small relative tolerance otherwise.",
"C22": "Two binaries built from the same tree (with and without debug_lookup) run the same generated programs; bounded program size.",
"C23": "Compares a program with its rewrites; bounded program size.",
}
for k in TECH:
    NOTE.setdefault(k, MODEL)
NA = {}
