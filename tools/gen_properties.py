#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

LOADONLY = "The existing tests mostly only load fixed .dyon files and never look at a computed value; "

prop("C01", "Expressions evaluate to the value the language defines",
 "Any expression built from numbers, booleans, strings, vec4, mat4 and option/array/object values with Dyon's unary, binary, comparison and compound-assignment operators evaluates to the value given by the language's precedence, associativity and operator definitions, for operands of every supported type pairing. Operands are evaluated exactly once, from left to right, except that `&&` and `||` skip the right operand when the left one decides, and an operand pairing the operator does not support is reported as an error and never gives a value.",
 ["programs", "inputs"], "All well-formed operator expressions of the grammar and all operand values, including signed zero, infinities, NaN and huge/small magnitudes.",
 LOADONLY + "the operator table times precedence nesting times operand values is unbounded.",
 ["assets/syntax.txt", "src/ast/mod.rs", "src/dyon_std/mod.rs", "src/runtime/mod.rs", "src/vec4.rs", "src/mat4.rs"],
 [("operator grammar and conversion to calls", "assets/syntax.txt; src/ast/mod.rs (Add/Mul/Pow/Compare/Neg)"), ("operator functions", "src/dyon_std/mod.rs add/sub/mul/div/rem/pow/less/equal/.."), ("compound assignment", "src/runtime/mod.rs assign")],
 observe=["return value of call_str_ret", "effect log of an external function"])

prop("C02", "Statements execute in order with the control flow that was written",
 "A function body executes its statements in order; if/else-if/else, loop, C-style for, counted for, nested blocks, labelled and unlabelled break/continue, return and assignment to the `return` variable transfer control exactly as written, and every variable resolves to the innermost live declaration of its name. The observable sequence of effects, the returned value and the final value of every mutable argument depend on nothing else.",
 ["programs"], "All programs over variables, blocks, conditionals, the loop forms with any label nesting, and calls between functions, including recursion.",
 LOADONLY + "no finite set of fixed programs covers the nestings of labels, scopes and early exits.",
 ["src/runtime/mod.rs", "src/runtime/for_n.rs", "src/ast/mod.rs"],
 [("flow values Continue/Return/BreakLoop/ContinueLoop", "src/runtime/mod.rs"), ("static variable resolution", "src/ast/mod.rs resolve_locals"), ("dynamic variable resolution", "src/runtime/mod.rs item")],
 state=[dict(name="stack/local_stack", meaning="values and named locals of live frames", where="src/runtime/mod.rs Runtime")],
 observe=["effect log", "return value"])

prop("C03", "Mathematical loops equal their defining folds and carry proofs",
 "sum, prod, min, max, any, all, sift, link, sum_vec4, prod_vec4 and the vec4/vec3/vec2 unpack loops, with explicit bounds, a start offset, several packed indices, or a range inferred from the indexed list, equal the left fold of the body over exactly the index tuples of the stated half-open ranges in lexicographic order, with break/continue/label honoured. For any/all/min/max the answer given by why/where is the tuple of indices, outermost first, of the first deciding (respectively optimal) iteration.",
 ["programs", "inputs"], "All loop kinds, range shapes (empty, reversed, offset, inferred), packings, nestings and bodies.",
 LOADONLY + "ranges, packings and inference sites form an unbounded space.",
 ["src/runtime/for_n.rs", "src/runtime/for_in.rs", "src/runtime/mod.rs", "src/ast/infer_len.rs", "src/ast/mod.rs", "src/ast/replace.rs"],
 [("loop evaluation", "src/runtime/for_n.rs"), ("range inference", "src/ast/infer_len.rs"), ("secrets", "src/runtime/for_n.rs; src/dyon_std/mod.rs why/where")],
 observe=["return value", "why/where", "effect log"])

prop("C04", "Assignment, references and copy-on-write never leak writes",
 "Declaring, assigning or passing a value makes an independent copy: changing one variable, element or field is never visible through another, except through the aliases the language defines (a variable named directly inside an array or object literal, push_ref/insert_ref, and a variable passed as `mut`), and through those it is always visible. Writing through a nested path changes exactly the addressed element.",
 ["histories", "programs"], "All histories of declarations, nested reads and writes, pushes/inserts/removals, clones and mut calls over arrays and objects of any nesting.",
 LOADONLY + "aliasing bugs need a particular multi-step history.",
 ["src/runtime/mod.rs", "src/lib.rs", "src/dyon_std/mod.rs"],
 [("Ref variables and item lookup with copy-on-write", "src/runtime/mod.rs item/assign"), ("deep_clone", "src/lib.rs Variable::deep_clone"), ("array mutation functions", "src/dyon_std/mod.rs push/insert/pop/remove/..")],
 observe=["printed/returned state of every variable after every step"])

prop("C05", "A link is an immutable sequence under every operation history",
 "A link behaves as an immutable sequence of the booleans, numbers and strings put into it: building, concatenating, adding at the end, head, tip, tail, neck, emptiness, cloning, printing and link loops agree with the same operations on a plain list, for any length and any history. No operation changes any link value obtained earlier, and every string stays valid as long as some link holds it and is released once the last link sharing its storage is gone.",
 ["histories"], "All histories of link operations, with lengths crossing the internal block size, over many simultaneously live links.",
 "The tests never read a link back; block boundaries and shared slices appear only in long histories.",
 ["src/link.rs", "src/dyon_std/mod.rs", "src/runtime/for_n.rs"],
 [("unrolled block slices with unsafe storage", "src/link.rs Block/Slice/Link")],
 state=[dict(name="Block.data/tys/var", meaning="type-tagged slots of a block", where="src/link.rs")],
 observe=["Link methods", "Arc strong counts", "Dyon link programs"])

prop("C06", "Dyon data survives saving and loading unchanged",
 "For every value made of booleans, finite numbers, strings, vec4s, arrays and objects, writing it as Dyon data and loading it back, through a string or a file, yields an equal value. Loading any other text either yields a value or a clean error, independent of insignificant whitespace and comments.",
 ["inputs"], "All data values (any nesting, any unicode string and key, any finite f64) and arbitrary text.",
 "Only a fixed file is loaded by a sample; escapes, exponents and keys are unbounded.",
 ["src/dyon_std/data.rs", "src/write.rs", "src/dyon_std/mod.rs"],
 [("data writer", "src/write.rs"), ("hand-written data parser", "src/dyon_std/data.rs")],
 observe=["load_data__string", "save__data_file/load_data__file"])

prop("C07", "Text conversions are faithful and invertible",
 "str/print output is the canonical text of a value: numbers parse back to the same number, strings inside other values are quoted and escaped so that reading them gives the same text, and the text of an array, object, option or result of ordinary values (numbers a literal can hold, booleans, strings, vec4, mat4, links, options, results, arrays, objects) re-read as source gives back an equal value. Printing a closure yields source text of a closure that behaves identically on all arguments, whatever operators, nestings, loops, calls and grabbed values its body holds.",
 ["inputs", "programs"], "All values and all closures over the expression grammar.",
 "One fixed closure-printing sample exists; operator nesting and escapes are unbounded.",
 ["src/write.rs", "src/dyon_std/mod.rs"],
 [("value and expression writer", "src/write.rs write_variable/write_expr/binop_needs_parens")],
 observe=["str(x)", "re-loading printed source"])

prop("C08", "Accepted programs respect their declared types; ill-typed are rejected",
 "A program that breaks a declared or inferred type at a checked position (argument, return, condition, operator operand, vec4/mat4 component, loop bound, range, list element, unused result, missing return, wrong arity, unknown function or variable) is rejected when it is loaded, and a program where all types agree is accepted. In an accepted program a value that reaches a typed argument or a typed `return` through literals, operators, library calls, conditionals and loops has the declared type when it gets there. (Argument types of closure calls, the final expression of a block function, a later `=` to an untyped variable and `=`-form functions whose type is not certain are left to run time.)",
 ["programs"], "All programs over the type grammar (basic, opt, res, sec, array, thr, in, closure types), with single injected faults at any position.",
 "The tests fix about 130 files; positions, type combinations and propagation orders are unbounded.",
 ["src/lifetime/typecheck.rs", "src/lifetime/mod.rs", "src/ty.rs", "src/lifetime/node.rs", "src/module.rs"],
 [("type propagation and checks", "src/lifetime/typecheck.rs"), ("type compatibility", "src/ty.rs goes_with"), ("prelude signatures", "src/module.rs; src/prelude.rs")],
 observe=["load_str result", "typeof of run-time values"])

prop("C09", "No accepted program can observe a dangling reference",
 "The lifetime checker accepts a program only if every variable put by name into an array, an object, a mutable argument or the returned value outlives the place it is put in: storing or returning a shorter-lived variable, directly or inside an aggregate, or passing arguments that break a declared lifetime, is rejected at load (by an error at run time for functions called by name), and programs whose declared lifetimes suffice are accepted. Running an accepted program never yields a dangling or foreign value through such a reference. (Whether one returned aggregate may mix arguments with unrelated lifetimes is left open.)",
 ["programs"], "All programs with local variables in nested scopes, arguments with lifetime annotations in any order, and calls between such functions.",
 "20 fixed lifetime files are loaded; scope/order/annotation combinations are unbounded and none of them is run.",
 ["src/lifetime/mod.rs", "src/lifetime/lt.rs", "src/lifetime/node.rs"],
 [("lifetime comparison", "src/lifetime/lt.rs"), ("constraint collection", "src/lifetime/mod.rs check_core")],
 observe=["load_str result", "values read through references at run time"])

prop("C10", "Mutability declarations are enforced",
 "A function can change a caller's variable only through a parameter declared `mut` and passed with `mut`: a program that assigns to, inserts a key into, or passes on as `mut`, an argument or current object not declared `mut`, or whose call mutability does not match the callee, is rejected at load, while matching programs are accepted. After any accepted call, arguments not passed as `mut` hold the values they had before.",
 ["programs"], "All combinations of parameter and call mutability, nested paths, assignment operators and mutating library calls.",
 "One fixed file exercises mut; the combinations are unbounded.",
 ["src/lifetime/mod.rs", "src/ast/mod.rs", "src/runtime/mod.rs"],
 [("mutability in names and checks", "src/lifetime/mod.rs (name_plus_args, mutated_locals)"), ("AST call names", "src/ast/mod.rs")],
 observe=["load_str result", "argument values after calls"])

prop("C11", "Any source text is handled without crashing the host",
 "Loading arbitrary text as a program, data, meta syntax or meta document either succeeds or returns an error message; calling functions of a loaded program with arbitrary values either returns or reports a run-time error. The host never panics or aborts, whatever the text and the values, and a runtime that reported an error still answers further calls. (Recursion deeper than the host's stack, memory beyond the machine's, and the time a parse takes are out of scope.)",
 ["inputs", "programs"], "Arbitrary and mutated source text and grammar-generated ill-typed dynamic programs.",
 "Tests use only intended sources; panics sit on unusual token, type and value combinations.",
 ["src/lib.rs", "src/ast/mod.rs", "src/lifetime", "src/runtime/mod.rs", "src/dyon_std"],
 [("error returns instead of panics", "src/runtime/mod.rs; src/dyon_std/mod.rs; src/lifetime/mod.rs")],
 observe=["load_str/call results", "process exit status"])

prop("C12", "Errors propagate exactly as `?`, try and unwrap define",
 "`x?` continues with the inner value of ok/some and otherwise leaves the enclosing function immediately with the same error (none becomes an error); `try e` turns a run-time error of `e` into err and otherwise gives ok of its value, leaving all other variables as they were; unwrap, unwrap_or, unwrap_err, is_ok, is_err agree with that model. An error that nobody handles reaches the caller as an error report that names the failing call chain, and no statement after the failing one runs.",
 ["programs", "fault_sequences"], "All placements of failing operations, `?`, try and unwrap in nested calls, loops, closures and blocks.",
 LOADONLY + "the point of failure times the handlers around it is unbounded.",
 ["src/runtime/mod.rs", "src/dyon_std/mod.rs", "src/runtime/for_n.rs"],
 [("try evaluation", "src/runtime/mod.rs try_msg/try_expr"), ("stack restoration", "src/runtime/mod.rs")],
 observe=["return value", "effect log", "error text"])

prop("C13", "A runtime can be reused: calls are independent of history",
 "The result of calling a function depends only on the module and the arguments: repeating a call on the same runtime, after any sequence of successful calls, failed calls and loads of other modules, gives the same result as on a fresh runtime. Every successful call leaves the evaluation state as balanced as it found it, and repeated calls do not accumulate state.",
 ["histories"], "All sequences of calls, failing calls at any depth, and module switches on one runtime.",
 "Every test uses a fresh runtime for one call.",
 ["src/runtime/mod.rs", "src/lib.rs"],
 [("stack truncation on return", "src/runtime/mod.rs call_internal/block/for loops"), ("Runtime::call/call_ret", "src/runtime/mod.rs")],
 state=[dict(name="stack/local_stack/current_stack/call_stack", meaning="evaluation state", where="src/runtime/mod.rs Runtime")],
 observe=["call results", "stack lengths after calls"])

prop("C14", "Threads and channels deliver exactly what was sent, in order",
 "`go f(args)` runs f on a deep copy of its arguments and join gives exactly the value the same call gives inline, whatever the interleaving, with no effect on the spawner's variables. A channel made by `in f` receives, in call order per thread, one message holding the arguments of every later call of f, from this or any thread, and none other; next, wait_next and loops over the channel consume each message exactly once.",
 ["schedules", "programs"], "All programs with any number of threads, channels, calls and receive points, under any schedule.",
 "The tests only load such files or time one fixed program.",
 ["src/threading.rs", "src/runtime/mod.rs", "src/runtime/for_in.rs", "src/ast/mod.rs"],
 [("go: cloned runtime and arguments", "src/runtime/mod.rs go"), ("senders per function", "src/runtime/mod.rs In/call"), ("receive loops", "src/runtime/for_in.rs")],
 observe=["join results", "received messages"])

prop("C15", "Names resolve to the function the module structure says",
 "An unqualified call resolves to the last function of that name among the transitive functions, the functions of the imported modules in import order, and the module's own functions, and only otherwise to the last external function of that name; a function that is not visible that way is an error at load time. A qualified call `q::f` resolves to the function of that name in the namespace that a `use` clause gave the alias q (an explicitly listed or renamed function before the whole namespace). Which function is reached does not depend on later modules, on unrelated modules, on how the module was built (by the host or by a script, before or while running), or on whether the call is made directly, from a closure, by `go`, by the dynamic call functions or by the host call API; a closure reaches the functions of the module it was made in wherever it is called; a wrong name or argument count in a dynamic call is an error, not a panic. (Two functions with the same name in one namespace are left open.)",
 ["programs", "configurations"], "All module graphs with namespaces, aliases, shadowed names, external functions, transitive flags and dynamic calls.",
 "Two fixed module samples exist and are only loaded.",
 ["src/module.rs", "src/prelude.rs", "src/ast/mod.rs", "src/lib.rs", "src/dyon_std/mod.rs"],
 [("import and transitivity", "src/module.rs"), ("use lookup", "src/ast/mod.rs UseLookup"), ("relative function indices", "src/module.rs find_function; src/runtime/mod.rs")],
 observe=["call results", "load errors"])

prop("C16", "Closures capture by grab and otherwise behave as functions",
 "Calling a closure, directly, from an object field, passed to or returned from functions, or through several levels of nesting, gives the same result as the equivalent named function with every `grab` replaced by the value the grabbed expression had when the closure was created at that grab level. Later changes of grabbed variables are not visible, and each creation of a closure in a loop captures its own values.",
 ["programs"], "All closure bodies, grab levels, nestings, and call sites.",
 LOADONLY + "grab rewriting must work for every expression form.",
 ["src/grab.rs", "src/runtime/mod.rs", "src/ast/mod.rs"],
 [("grab rewriting of every expression kind", "src/grab.rs"), ("closure calls", "src/runtime/mod.rs call_closure")],
 observe=["closure call results"])

prop("C17", "Current objects follow dynamic scope",
 "Inside a function or closure declaring `~ x`, and for a host function asking for x, x is the innermost live current object of that name in the dynamic call chain, mutations of a mutable current are visible to that owner and to nobody else, and after the scope that created it ends the previous one of the same name is visible again. Calling such a function when no current object of that name is live is an error.",
 ["programs", "histories"], "All call graphs that set, shadow, read, mutate and leave current objects, also through closures and the host call API.",
 "Two fixed files declare currents and are only loaded.",
 ["src/runtime/mod.rs", "src/lib.rs", "src/ast/mod.rs"],
 [("current_stack push and truncation", "src/runtime/mod.rs block/call_loaded/item; src/lib.rs CurrentGuard/Current")],
 observe=["return values", "effect log"])

prop("C18", "Lazy invariants decide without evaluating later arguments",
 "When an argument equals a lazy value declared on its parameter (a literal, ok(_), err(_) or some(_) pattern), the call returns that argument at once and evaluates neither the remaining arguments nor the body; otherwise the call behaves as if no lazy value were declared. This holds for any parameter position, alternative lists, and loaded, built-in and host functions with lazy values.",
 ["programs"], "All signatures with lazy values at any position, and all arguments.",
 LOADONLY + "the result and the skipped effects are never observed.",
 ["src/runtime/mod.rs", "src/ast/mod.rs", "src/lib.rs", "src/dyon_std/mod.rs"],
 [("lazy call evaluation", "src/runtime/mod.rs call_loaded/call_lazy"), ("lazy invariants in AST", "src/ast/mod.rs Arg/Lazy")],
 observe=["effect log", "return value"])

prop("C19", "Host embedding moves values across the boundary unchanged",
 "Every host value pushed into a program and popped back as the same type is equal to the original (numbers, strings, options, results, tuples, arrays, vectors, vec4/mat4 conversions, host objects), a host function registered with a module sees exactly the arguments the script passed in order, and popping a value of a different type is an error rather than a panic or a wrong value (integers out of range and surplus items of an array are left open). Calls made through the host call builder equal the script calls.",
 ["inputs", "programs"], "All host values of the supported types and all mixes of arguments.",
 "The doc test and examples show single values.",
 ["src/embed.rs", "src/macros.rs", "src/runtime/mod.rs", "src/vec4.rs", "src/mat4.rs", "src/lib.rs"],
 [("PushVariable/PopVariable", "src/embed.rs"), ("dyon_fn!/dyon_obj!", "src/macros.rs"), ("Call builder", "src/lib.rs Call"), ("ConvertVec4/ConvertMat4", "src/embed.rs; src/vec4.rs; src/mat4.rs")],
 observe=["host values before and after"])

prop("C20", "Array, string and object library functions match their description",
 "len, push, pop, insert, remove, reverse, clear, swap, min, max, has, keys (as a set), chars, trim*, str, parse_number, json_string, typeof, equality and the option/result helpers return what the library documentation states for every argument, change only the array they are given, and report wrong-type arguments and indices at or past the length as errors.",
 ["inputs", "histories"], "All arrays, indices, strings (any unicode) and objects, in any sequence of operations.",
 LOADONLY + "boundary indices and unicode are unbounded.",
 ["src/dyon_std/mod.rs", "src/lib.dyon", "src/module.rs"],
 [("library functions", "src/dyon_std/mod.rs")],
 observe=["return values and array contents"])

prop("C21", "Numeric, vector, matrix and color library functions are correct",
 "Rounding, roots, trigonometry, exponentials, vector components, dot/cross/norm, matrix rows and columns, products, inverse, determinant, translation, rotation, scale, projection, view, and color conversions return the mathematically defined result to floating-point accuracy and satisfy their algebraic laws (m * inv(m) is the identity, rotation turns clockwise seen with the axis pointing at the viewer, transforms compose, color text round-trips within one step).",
 ["inputs"], "All argument values in the documented domains.",
 LOADONLY + "no numeric result is ever checked.",
 ["src/dyon_std/mod.rs", "src/vec4.rs", "src/mat4.rs", "src/ast/mod.rs"],
 [("math library", "src/dyon_std/mod.rs"), ("matrix literals and color literals", "src/ast/mod.rs; src/runtime/mod.rs")],
 observe=["return values"])

prop("C22", "Build configuration does not change program results",
 "Turning the variable-lookup debugging feature on or off gives the same result, effects and success or failure for every accepted program: names resolved ahead of time denote the same variables as names looked up while running.",
 ["programs", "configurations"], "All accepted programs, in both feature configurations.",
 "The suite runs in one configuration only and observes no values.",
 ["src/runtime/mod.rs", "src/ast/mod.rs", "Cargo.toml"],
 [("static stack ids", "src/ast/mod.rs resolve_locals"), ("dynamic lookup under debug_lookup", "src/runtime/mod.rs item")],
 observe=["program results in two builds"])

prop("C23", "Layout and notation variants do not change meaning",
 "Programs that differ only in insignificant whitespace, comments, redundant parentheses, the notation of an operator (word, ASCII or unicode form), named versus underscore argument syntax, method of declaring a function (block or `=` form), the names of variables, or the order of function definitions load alike and give the same results. Text that is not part of a program, before, between or after its functions, is rejected and never skipped.",
 ["programs"], "All programs and all compositions of the meaning-preserving rewrites at any position.",
 "Each fixed file has one layout.",
 ["assets/syntax.txt", "src/ast/mod.rs", "src/lifetime/node.rs"],
 [("whitespace/comment rules", "assets/syntax.txt"), ("sugar conversion", "src/ast/mod.rs; src/lifetime/node.rs")],
 observe=["load result and return values of the variants"])

prop("C24", "Meta parsing reports the structure of the text faithfully",
 "Parsing a text with a meta syntax from a Dyon program gives exactly the node structure the syntax describes: names, values, kinds and source ranges in order, properly nested, with an error for text outside the syntax and for text left over, whether read from a string or a file and however often the syntax is used. JSON generated from meta data parses back to the same tree.",
 ["inputs", "programs"], "All texts produced from generated syntaxes, and mutations of them.",
 "No test runs meta parsing from a program.",
 ["src/dyon_std/meta.rs", "src/dyon_std/mod.rs"],
 [("meta data conversion", "src/dyon_std/meta.rs"), ("json_from_meta_data", "src/dyon_std/meta.rs")],
 observe=["meta__syntax_in_string", "json_from_meta_data"])

prop("C25", "Introspection reports the module as it is",
 "functions() and functions(module: m) list every function visible in the module (external, imported and declared) exactly once, sorted by name, with its full name (including which arguments are mut), its kind, its arguments in order with name, declared lifetime and type, and its return type, whatever the spelling of the types in the source. What is listed for a built-in function is what the language enforces: arguments of the listed types load, a different number of arguments or an argument of another type is rejected, a call whose result is not used loads only for functions listed as void, and the value given at run time is of the listed type.",
 ["programs"], "All modules with any mix of loaded, imported, external and built-in functions and signatures, and all calls of listed built-in functions.",
 "A sample prints the list; nothing compares it.",
 ["src/dyon_std/functions.rs", "src/dyon_std/mod.rs", "src/module.rs", "src/ty.rs"],
 [("function listing", "src/dyon_std/functions.rs"), ("type description", "src/ty.rs description"), ("signatures of the library", "src/module.rs Module::new")],
 observe=["functions__module result", "load verdicts", "results of listed functions"])

prop("C26", "Refined signatures and ad-hoc types are checked as declared",
 "For a function with extra typed signatures (closed, or quantified over ad-hoc types), a call whose argument types match one signature has that signature's return type, a call that certainly matches none is rejected, and a call whose types are not known yet is left to the declared type. Ad-hoc types with different names never mix in addition, subtraction or argument passing, while plain values may be passed where an ad-hoc type is expected.",
 ["programs"], "All signature lists, ad-hoc names, argument types and argument orders.",
 "The tests fix about forty files; lists, quantifiers and argument mixes are unbounded.",
 ["src/lifetime/typecheck/refine.rs", "src/ty.rs", "src/lifetime/typecheck.rs"],
 [("refinement", "src/lifetime/typecheck/refine.rs"), ("type variables", "src/ty.rs bind_ty_vars/ambiguous")],
 observe=["load_str result"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
