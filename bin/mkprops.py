#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay reviewable)."""
import json, pathlib
E = "pyo3_bindgen_engine/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(obs), "hook_needed": hook}})

p("C01", "Module members are bound completely, at the mirrored path",
  "Every public module of a requested package (a module file of it, or a module that claims to be part of it), and every public function, class, value and type variable defined in such a module, gets a binding at the Rust path that mirrors its Python path; functions (including builtins, lambdas and partials) become functions with the same parameters in the same order, classes become structs that report their Python name, values become a getter and a setter, type variables become type aliases. Nothing is bound that is not an attribute of the Python module.",
  ["inputs", "programs"], "all packages, nesting depths, mixes of member kinds, parameter lists",
  "The tests bind three one-member modules and smoke-test os/sys; no test looks at nested modules, mixed members, or at what is missing.",
  [E+"syntax/module.rs", E+"syntax/common/attribute_variant.rs", E+"syntax/function.rs", E+"syntax/type_var.rs"],
  [("Module::parse / Module::generate", E+"syntax/module.rs"), ("AttributeVariant::determine", E+"syntax/common/attribute_variant.rs")],
  obs=["tokens returned by Codegen::generate"])
p("C02", "Private and blocklisted names stay out, and only those",
  "With the default configuration no attribute, submodule or class member whose name (or whose defining module's path) has a leading underscore, whose name is in the configured blocklist, or which comes from typing or __future__ is bound (nor are the few names that PyO3 reserves: get_type, obj, py, repr, str), except constructors and call operators; with private names included the underscore rule (alone) is lifted. A name that merely resembles a filtered one (same prefix, suffix, or substring) is still bound.",
  ["inputs", "configurations"], "all names x defining modules x include_private x blocklists x kinds of member",
  "Tests never include a private, blocklisted or near-miss name.",
  [E+"config.rs", E+"syntax/module.rs", E+"syntax/class.rs"], [("Config::is_attr_allowed", E+"config.rs")], obs=["generated items"])
p("C03", "Generated bindings compile",
  "Whatever Codegen::generate returns successfully is a valid set of Rust items that compiles against pyo3: no name is defined twice in a scope, every path it mentions resolves, every type it uses exists and supports the conversions applied to it.",
  ["inputs", "configurations", "histories"], "all Python modules x configurations x sets of added modules",
  "Tests compare three fixed texts and never compile generated bindings except for a few stdlib modules in doc tests.",
  [E+"syntax/module.rs", E+"syntax/class.rs", E+"syntax/function.rs", E+"syntax/property.rs", E+"syntax/import.rs", E+"typing/into_rs.rs"],
  [("name-clash handling", E+"syntax/property.rs"), ("local_types / Path::relative_to", E+"syntax/common/path.rs")], obs=["rustc on the generated items"])
p("C04", "A bound call reaches Python with exactly the given arguments",
  "Calling a generated function, method, static or class method, call operator or constructor calls that same Python callable exactly once, with every argument bound to the Python parameter of the same name (positional, keyword-only, *args and **kwargs alike), leaves the caller's arguments unmodified, and returns the Python result; a Python exception comes back as Err carrying that exception.",
  ["inputs", "programs"], "all signatures x callable kinds x nesting x argument values",
  "No test runs generated bindings against Python code that observes its arguments.",
  [E+"syntax/function.rs"], [("Function::generate dispatcher, positional/keyword argument assembly", E+"syntax/function.rs")], obs=["arguments logged by the Python callee", "returned value / PyErr"])
p("C05", "Generated getters and setters access the Python attribute itself",
  "A generated getter returns the current value of the Python attribute it is named after and a generated setter stores the given value in it, for module variables, class attributes and properties, so that a get after a set returns the value set; a property of a class has a setter exactly when Python's property has one, typed by the setter's own annotation; plain class attributes have a getter only.",
  ["inputs", "histories"], "all attributes x sequences of gets and sets x name clashes with functions",
  "The one property test compares generated text, not behaviour.",
  [E+"syntax/property.rs"], [("Property::parse, generate_getter, generate_setter", E+"syntax/property.rs")], obs=["values seen by Python and by Rust"])
p("C06", "Bindings find their Python object in a fresh interpreter",
  "In an interpreter in which nothing has been imported yet, each binding, at any depth of submodules and no matter which modules the package itself imports, resolves to the Python object it was generated from, without any preparation by the caller.",
  ["programs", "histories"], "all package shapes and nesting depths x order of first use",
  "No test executes a binding of a nested module.",
  [E+"syntax/common/path.rs"], [("Path::import_quote", E+"syntax/common/path.rs")], obs=["result of the first call in a fresh process"])
p("C07", "Annotations map to the documented Rust types, however they are spelled",
  "The Rust type of every parameter and result is a function of the meaning of its Python annotation alone: None, builtins, containers (to any nesting), optionals, unions, callables, datetime/pathlib/ipaddress types, classes and type variables of the bound modules each have one Rust counterpart, and the live annotation, its spelling by module typing and its spelling as a string (of builtin and standard classes) agree. What is not recognised maps to a Python object (Any); a class object derived from a builtin class maps like that class.",
  ["inputs"], "all annotation terms up to a nesting depth, in each spelling, as parameter, result, module value, property",
  "Tests cover str, and one repair of 'dict[str, Any]'; nesting and agreement between spellings are untested.",
  [E+"typing/from_py.rs", E+"typing/into_rs.rs", E+"typing/mod.rs"], [("Type::try_from / from_typing / from_str / repair_complex_sequence", E+"typing/from_py.rs"), ("Type::into_rs / map_type", E+"typing/into_rs.rs")], obs=["signatures of generated functions"])
p("C08", "Re-exports point at the object Python imported",
  "A function, class or module imported into a bound module from one of its own submodules is re-exported there under the name the module gives it, pointing at the place where that very object is bound; an import from a submodule that takes the name of that submodule wins over it; imports of what is not bound and imports from elsewhere are not re-exported, and no re-export dangles.",
  ["programs"], "all import statements (from, import, as) x origin positions x shadowing",
  "No test has a module with an import.",
  [E+"syntax/import.rs", E+"syntax/module.rs", E+"syntax/common/path.rs"], [("Import::generate, ImportType::from_paths, Path::relative_to", E+"syntax/import.rs"), ("conflicting imports", E+"syntax/module.rs")], obs=["use items"])
p("C09", "Added modules form one tree, independent of order and repetition",
  "The bindings for a collection of added modules depend only on the set of modules added, not on the order, the number of times, or the call (one by one, by name, by handle, in bulk) used to add them: every module appears once, nested under its ancestors, ancestors that were not added contribute nothing but themselves, and nothing added is lost. An add that fails adds nothing.",
  ["histories"], "all sequences of add calls over overlapping packages and submodules",
  "Tests add one or two unrelated modules.",
  [E+"codegen.rs"], [("Codegen::canonicalize / merge_duplicate_modules", E+"codegen.rs")],
  state=[("Codegen.modules", "parsed module trees", E+"codegen.rs")], obs=["generated tree"])
p("C10", "Category switches remove exactly their category",
  "Switching off functions, classes, properties, type variables, imports, preludes, documentation or submodule traversal removes exactly the items of that category from the bindings and leaves every other item unchanged, except that what can no longer refer to a removed item refers to a plain Python object or is left out.",
  ["configurations"], "all combinations of the switches x packages",
  "Tests only use the default configuration.",
  [E+"config.rs", E+"syntax/module.rs", E+"syntax/class.rs"], [("cfg.generate_* guards", E+"syntax/module.rs")], obs=["generated items per configuration"])
p("C11", "Python output is muted while parsing and always restored",
  "While a module is parsed, what Python code writes to a muted stream goes nowhere and writing never fails; a stream that no running call mutes is untouched. When the call returns, whether it succeeded or failed, and when the last of several overlapping calls from different threads has returned, both sys streams are the objects they were before.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of parses in several threads x failures x mute settings",
  "Tests run single threaded, on modules that print nothing and do not fail.",
  [E+"utils/io.rs", E+"codegen.rs"], [("with_suppressed_python_output", E+"utils/io.rs")], state=[("sys.stdout / sys.stderr", "the interpreter's streams", "Python")], obs=["sys.stdout, sys.stderr and the text captured"])
p("C12", "Any importable module yields bindings; bad input yields an error, not a panic",
  "Parsing and generating never panic: for any module that Python can import, whatever its annotations, signatures, docstrings, properties or descriptors look like, the result is Ok (an error only if looking at the module itself raises one), and a module that cannot be imported, source that cannot be executed, an unknown name or an empty builder gives Err.",
  ["inputs", "fault_sequences"], "all modules, including malformed annotations and odd descriptors; all import failures",
  "Tests use well-formed modules only.",
  [E+"typing/from_py.rs", E+"syntax/function.rs", E+"syntax/property.rs", E+"codegen.rs"], [("Result plumbing", E+"utils/error.rs")], obs=["Ok / Err / panic"])
p("C13", "Embedded source reproduces the module it was bound from",
  "Bindings generated from source code carry that exact source under the module's name: after the embedding function has run in a fresh interpreter the module can be imported and its bindings work, for any source text and any module name; modules added by other means carry none.",
  ["inputs", "histories"], "all source texts and module names x mixes with other added modules",
  "Tests build from source but never call the embedding function.",
  [E+"codegen.rs", E+"syntax/module.rs"], [("Codegen::module_from_str, embed_source_code_fn", E+"codegen.rs")], obs=["generated function and its effect"])
p("C14", "Every delivery route gives the same bindings, and failure writes nothing",
  "The command-line tool (to standard output or to a file, creating missing directories), Codegen::build, the build helper and the in-process generator deliver the same bindings for the same modules; when the modules cannot be bound the route reports failure and an existing output file keeps its content.",
  ["inputs", "fault_sequences"], "all module lists x routes x output locations x failures",
  "CLI tests check the exit status for os and sys only.",
  ["pyo3_bindgen_cli/src/main.rs", "pyo3_bindgen/src/lib.rs", "pyo3_bindgen_macros/src/lib.rs", E+"codegen.rs"], [("main", "pyo3_bindgen_cli/src/main.rs"), ("Codegen::build", E+"codegen.rs")], obs=["stdout, files, exit status"])
p("C15", "Docstrings are carried over to the item they document",
  "With documentation on, each bound module, class, function, method and property carries its own Python docstring and no other: every line is kept, in order, up to surrounding and repeated blanks, blank edges and repeated backticks; undocumented items carry none, and a property accessor without its own docstring takes its counterpart's (a docstring that reads just None counts as missing).",
  ["inputs", "configurations"], "all docstrings (lines, blanks, backticks, slashes) x kinds of item",
  "Only simple one-line docstrings in the three golden tests.",
  [E+"utils/text.rs", E+"syntax/class.rs", E+"syntax/function.rs", E+"syntax/property.rs", E+"syntax/module.rs"], [("format_docstring", E+"utils/text.rs")], obs=["#[doc] attributes"])
p("C16", "Generation is reproducible and has no side effect on what it binds",
  "The bindings generated for the same modules and configuration are the same, token for token, every time: in another process, under another hash seed, after other unrelated modules were imported or bound first, or from a cloned builder; and generating does not change the Python objects that were parsed.",
  ["histories", "configurations"], "all histories of unrelated work before generation x hash seeds x repeated generation",
  "No test generates twice.",
  [E+"codegen.rs", E+"syntax/module.rs"], [("ordered/unique collection of attributes", E+"syntax/module.rs")], obs=["generated items"])
p("C17", "Dependencies are bound when asked for, and only then",
  "With dependency generation on, every module from which a requested module imports a public function, class or module is bound as well (the dependencies of dependencies are not), itself subject to the same filters; with it off, no module outside the requested packages appears.",
  ["configurations", "programs"], "all import graphs x the switch",
  "The switch is never turned on in a test.",
  [E+"codegen.rs"], [("Codegen::parse_dependencies", E+"codegen.rs")], obs=["top-level modules generated"])
p("C18", "Python names become the same Rust name, a raw or sanitised one otherwise",
  "A Python name that is a legal Rust identifier is used unchanged, a Rust keyword is used as a raw identifier, and any other name gets a fixed sanitised form; whatever the Rust name, the generated code addresses the Python attribute by its original name, and two members of a scope whose names are legal identifiers never end up sharing one Rust name.",
  ["inputs"], "all identifiers (keywords, reserved words, non-ASCII, clashes) x kinds of member",
  "Unit tests cover Ident on three samples; no generated item has such a name.",
  [E+"syntax/common/ident.rs", E+"syntax/function.rs", E+"syntax/class.rs", E+"syntax/property.rs"], [("Ident::from_py / as_py", E+"syntax/common/ident.rs"), ("get_/set_/new/call clash handling", E+"syntax/property.rs")], obs=["item names", "names used at run time"])
p("C19", "Preludes hold exactly the module's public index",
  "When a module's __all__ differs from its public names, its bindings contain one extra module re-exporting exactly those listed names that are bound in the module itself and belong to its own package; its name never clashes with a member, and a module without __all__, or whose __all__ lists all public names, has none.",
  ["programs", "configurations"], "all __all__ lists x members x name clashes",
  "No test module defines __all__.",
  [E+"syntax/module.rs"], [("Module::extract_prelude / generate_prelude", E+"syntax/module.rs")], obs=["prelude modules"])
p("C20", "Class members are bound with their Python calling convention",
  "For every public member of a class, own or inherited, the bindings offer: a constructor for __init__, a call operator for __call__, methods taking the object for instance methods, associated functions for static and class methods (without the class argument), and accessors for properties and values; each with the Python parameters in order and none twice.",
  ["programs"], "all classes: member kinds x parameter lists x inheritance x name clashes",
  "One golden test with a constructor, a method and a property.",
  [E+"syntax/class.rs", E+"syntax/function.rs"], [("Class::parse", E+"syntax/class.rs"), ("method type inference", E+"syntax/function.rs")], obs=["impl and trait items"])
p("C21", "Values cross the boundary unchanged",
  "A value passed to a binding arrives in Python as a value equal to it and of the Python type the annotation names, and a value returned by Python arrives in Rust equal to it, for every supported annotation and every value of it: empty and nested containers, None for optionals, extreme numbers, non-ASCII text and bytes.",
  ["inputs"], "all supported annotations x boundary values x direction",
  "No test passes a value through a binding.",
  [E+"typing/into_rs.rs", E+"syntax/function.rs"], [("Type::preprocess_borrowed", E+"typing/into_rs.rs")], obs=["values logged by Python and by Rust"])
p("C22", "A broken submodule costs only itself",
  "A submodule that cannot be imported (raises, exits with an error, is malformed) is left out, and every sibling, parent and other added module is bound as if it were absent; when traversal of submodules is off exactly the requested modules are bound.",
  ["fault_sequences", "programs"], "all positions and kinds of import failure in a package tree",
  "No test package has submodules.",
  [E+"syntax/module.rs"], [("Module::parse submodule loop", E+"syntax/module.rs")], obs=["generated tree"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
