--------------------------------- MODULE Engine ---------------------------------
(* What the engine makes of the modules it inspects: which attributes are bound,  *)
(* as what, and the items (facts) of the generated bindings.                      *)
(*                                                                                *)
(* Views (what inspection of live Python objects yields):                         *)
(*  module view [name, pkg, doc, all, allnames, subs, attrs]                      *)
(*  attribute   [n, m, an, k, loc, x]   name, __module__, __name__, kind,         *)
(*              whether its str() mentions <locals>, payload by kind:             *)
(*    pyfunc, builtin, partial, method : function payload                         *)
(*    class  : [doc, mem]   value : [t]   typ, module : 0                         *)
(*  function payload [doc, sig, ps, ret]; parameter [n, k, t], k as in inspect    *)
(*  class member [n, m, k, own, x]  own = static kind in the class's own __dict__ *)
(*              ("" if it is inherited): inst, class, static                      *)
(*    property payload [g, gsig, gret, gdoc, s, ssig, sps, sdoc, t]               *)
EXTENDS PyTypes

Config0 == [traverse |-> TRUE, preludes |-> TRUE, imports |-> TRUE, classes |-> TRUE,
    typevars |-> TRUE, functions |-> TRUE, properties |-> TRUE, docs |-> TRUE,
    private |-> FALSE, deps |-> FALSE, block |-> {"builtins", "testing", "tests", "test"}]

Forbidden == {"get_type", "obj", "py", "repr", "str"}
Private(n) == StartsWith(n, "_")
(* May an attribute named n, defined in module m, be bound? *)
Allowed(cfg, n, m) ==
    /\ n \notin Forbidden
    /\ cfg.private \/ (~Private(n) /\ \A i \in 1..Len(Segs(m)) : ~Private(Segs(m)[i]))
    /\ n \notin cfg.block
    /\ \A i \in 1..Len(Segs(m)) : Segs(m)[i] \notin {"__future__", "typing"}
(* Every prefix of the path is allowed as a member of its parent *)
PathAllowed(cfg, p) == \A q \in PathPrefixes(p) : Allowed(cfg, Leaf(q), Parent(q))

(* ---- attributes of a module ------------------------------------------------ *)
External(a, owner) == ~a.loc /\ a.m # owner
Variant(a, owner) ==
    IF External(a, owner) /\ a.k \in {"module", "class", "pyfunc", "method"} THEN "import"
    ELSE CASE a.k = "module" -> "module"
           [] a.k = "class" -> "class"
           [] a.k \in {"pyfunc", "builtin"} -> "function"
           [] a.k = "method" -> "skip"
           [] a.k = "partial" -> "function"
           [] a.k = "typ" -> "typevar"
           [] OTHER -> "property"
Bound(cfg, v) == {a \in Range(v.attrs) : Allowed(cfg, a.n, a.m)}
VariantAttrs(cfg, v, c) == {a \in Bound(cfg, v) : Variant(a, v.name) = c}

(* ---- functions --------------------------------------------------------------*)
NoType == Unknown
ArgsParam == [n |-> "args", k |-> 2, t |-> TN("PyTuple", << Unknown >>)]
KwargsParam == [n |-> "kwargs", k |-> 4, t |-> T1("Optional", AnyDict)]
ArgsKwargs == << ArgsParam, KwargsParam >>
ParseParam(p) ==
    [n |-> p.n, k |-> p.k,
     t |-> CASE p.k = 2 -> ArgsParam.t [] p.k = 4 -> KwargsParam.t [] OTHER -> FromView(p.t)]
Positional(p) == p.k \in {0, 1}
(* f: payload; name: full name; c0: fn, ctor, call or unknown; own: see above.     *)
ParseFn(f, name, c0, own) ==
    LET ps0 == SelectSeq([i \in 1..Len(f.ps) |-> ParseParam(f.ps[i])],
                         LAMBDA p : ~(p.n = "_" /\ p.k \in {2, 4}))
        selfFirst == Len(ps0) > 0 /\ ps0[1].n = "self"
        c1 == IF c0 # "unknown" THEN c0
              ELSE IF own = "" THEN "static" ELSE own
        c2 == IF c1 \in {"class", "static"} /\ selfFirst THEN "inst" ELSE c1
        c3 == IF c2 = "inst" /\ Len(ps0) = 0 THEN "static" ELSE c2
        ps1 == IF c3 = "fn" /\ selfFirst
               THEN IF Positional(ps0[1])
                    THEN << [ps0[1] EXCEPT !.n = "__unknown_self__", !.t = Unknown] >> \o Tail(ps0)
                    ELSE ArgsKwargs
               ELSE IF c3 \in {"inst", "ctor", "call"} /\ Len(ps0) > 0 THEN Tail(ps0)
               ELSE ps0
        ps2 == IF \E i \in 1..Len(ps1) : ps1[i].n = "self" THEN ArgsKwargs ELSE ps1
    IN IF f.sig
       THEN [name |-> name, c |-> c3, ps |-> ps2, ret |-> FromView(f.ret), doc |-> f.doc]
       ELSE \* without a signature the kind of a method is not known: nothing is generated for it
            [name |-> name, c |-> c0, ps |-> ArgsKwargs, ret |-> Unknown, doc |-> f.doc]

(* ---- properties ------------------------------------------------------------ *)
ModuleProp(a, name) ==
    LET t == FromView(a.x.t)
    IN [name |-> name, mut |-> TRUE, gt |-> t, st |-> t, gdoc |-> "", sdoc |-> ""]
(* The value of a setter is its second parameter *)
SetterType(x) == IF x.ssig /\ Len(x.sps) >= 2 THEN FromView(x.sps[2].t) ELSE Unknown
ClassProp(mem, name) ==
    LET x == mem.x
        gt == IF x.g THEN (IF x.gsig THEN FromView(x.gret) ELSE FromView(x.t)) ELSE FromView(x.t)
        gd == IF x.g THEN x.gdoc ELSE ""
        sd == IF x.s THEN x.sdoc ELSE ""
    IN [name |-> name, mut |-> x.s, gt |-> gt, st |-> IF x.s THEN SetterType(x) ELSE Unknown,
        gdoc |-> IF gd = "" /\ x.s THEN sd ELSE gd,
        sdoc |-> IF x.s /\ sd = "" THEN gd ELSE sd]

(* ---- classes --------------------------------------------------------------- *)
MemberAllowed(cfg, mem) == Allowed(cfg, mem.n, mem.m) \/ mem.n \in {"__init__", "__call__"}
ParseClass(cfg, x, name) ==
    LET ms == {mem \in Range(x.mem) : MemberAllowed(cfg, mem)}
        fs == {mem \in ms : mem.k \in {"pyfunc", "builtin", "method"}}
        ps == {mem \in ms : mem.k = "value"}
    IN [name |-> name, doc |-> x.doc,
        fns |-> {ParseFn(mem.x, Dot(name, mem.n),
                    CASE mem.n = "__init__" -> "ctor" [] mem.n = "__call__" -> "call" [] OTHER -> "unknown",
                    mem.own) : mem \in fs},
        props |-> {ClassProp(mem, Dot(name, mem.n)) : mem \in ps}]

(* ---- modules ---------------------------------------------------------------- *)
Node(name) == [name |-> name, doc |-> "", prelude |-> {}, imports |-> {}, classes |-> {},
    typevars |-> {}, fns |-> {}, props |-> {}]
NodeWithDoc(name, doc) == [Node(name) EXCEPT !.doc = doc]

(* Listed in __all__, of the same root package (unless dependencies are bound too) *)
Prelude(cfg, v) ==
    LET listed == IF v.all THEN Range(v.allnames) ELSE {}
        public == {a.n : a \in {b \in Range(v.attrs) : ~Private(b.n)}}
        attr(n) == CHOOSE a \in Range(v.attrs) : a.n = n
        existing == {n \in listed : \E a \in Range(v.attrs) : a.n = n}
    IN IF ~cfg.preludes \/ listed = public THEN {}
       ELSE {n \in existing : /\ (cfg.deps \/ Under(attr(n).m, Root(v.name)))
                              /\ Allowed(cfg, n, v.name)}

(* Where an import comes from; attributes without a __module__ are modules *)
Origin(a) == Dot(a.m, a.an)
Imports(cfg, v) ==
    {[o |-> Origin(a), t |-> Dot(v.name, a.n)] :
        a \in {b \in VariantAttrs(cfg, v, "import") :
                 Origin(b) # Dot(v.name, b.n) /\ PathAllowed(cfg, Origin(b))}}
(* the names of types win over submodules *)
Submodules(cfg, v) ==
    (IF v.pkg THEN {s \in Range(v.subs) : Allowed(cfg, s, v.name)} \ {a.n : a \in (IF cfg.classes THEN VariantAttrs(cfg, v, "class") ELSE {})
                                                                                  \cup (IF cfg.typevars THEN VariantAttrs(cfg, v, "typevar") ELSE {})} ELSE {})
    \cup {a.n : a \in VariantAttrs(cfg, v, "module")}
(* Imports that take the name of a submodule: the submodule is not bound then *)
Conflicts(cfg, v) == {i \in Imports(cfg, v) : Leaf(i.t) \in Submodules(cfg, v)}
ParseModule(cfg, v) ==
    LET full(a) == Dot(v.name, a.n) IN
    [Node(v.name) EXCEPT
        !.doc = v.doc,
        !.prelude = Prelude(cfg, v),
        !.imports = Imports(cfg, v) \ Conflicts(cfg, v),
        !.classes = {ParseClass(cfg, a.x, full(a)) : a \in VariantAttrs(cfg, v, "class")},
        !.typevars = {full(a) : a \in VariantAttrs(cfg, v, "typevar")},
        !.fns = {ParseFn(a.x, full(a), "fn", "") : a \in VariantAttrs(cfg, v, "function")},
        !.props = {ModuleProp(a, full(a)) : a \in VariantAttrs(cfg, v, "property")}]

(* What replaces a submodule `n` (its parsed tree) that import i shadows *)
Lift(node, sub, i) ==
    [node EXCEPT
        !.imports = @ \cup {[o |-> j.o, t |-> i.t] : j \in {j \in sub.imports : j.t = i.o}},
        !.classes = @ \cup {[c EXCEPT !.name = i.t] : c \in {c \in sub.classes : c.name = i.o}},
        !.typevars = @ \cup {i.t : t \in {t \in sub.typevars : t = i.o}},
        !.fns = @ \cup {[f EXCEPT !.name = i.t] : f \in {f \in sub.fns : f.name = i.o}},
        !.props = @ \cup {[p EXCEPT !.name = i.t] : p \in {p \in sub.props : p.name = i.o}}]

(* ---- the tree: a function from module paths to nodes ------------------------- *)
MergeNodes(a, b) ==
    [a EXCEPT !.prelude = @ \cup b.prelude, !.imports = @ \cup b.imports,
        !.classes = @ \cup b.classes, !.typevars = @ \cup b.typevars, !.fns = @ \cup b.fns,
        !.props = @ \cup b.props]
MergeTrees(a, b) ==
    [p \in DOMAIN a \cup DOMAIN b |->
        IF p \notin DOMAIN b THEN a[p] ELSE IF p \notin DOMAIN a THEN b[p] ELSE MergeNodes(a[p], b[p])]
EmptyTree == [p \in {} |-> Node("")]
Roots(tree) == {p \in DOMAIN tree : HasChar(p, ".") = FALSE}
ChildNames(tree, p) == {Leaf(q) : q \in {q \in DOMAIN tree : Parent(q) = p /\ q # p /\ p # ""}}

AllTypes(cfg, tree) ==
    UNION {(IF cfg.classes THEN {c.name : c \in tree[p].classes} ELSE {})
           \cup (IF cfg.typevars THEN tree[p].typevars ELSE {}) : p \in DOMAIN tree}
(* Everything an import can point at: root modules are not members of anything *)
Existing(cfg, tree) ==
    {p \in DOMAIN tree : HasChar(p, ".")}
    \cup AllTypes(cfg, tree)
    \cup UNION {(IF cfg.functions THEN {f.name : f \in tree[p].fns} ELSE {})
                \cup (IF cfg.properties THEN {f.name : f \in tree[p].props} ELSE {}) : p \in DOMAIN tree}
(* How annotations in module `node` spell the types: by full path or through an import *)
TypeEnv(cfg, tree, node) ==
    LET types == AllTypes(cfg, tree)
        aliased == {<< i, p >> \in node.imports \X types : Under(p, i.o)}
        key(x) == IF x[2] = x[1].o THEN Leaf(x[1].t)
                  ELSE Dot(Leaf(x[1].t), DropPrefix(x[2], x[1].o \o "."))
        keys == types \cup {key(x) : x \in aliased}
    IN [k \in keys |-> IF \E x \in aliased : key(x) = k
                       THEN (CHOOSE x \in aliased : key(x) = k)[2] ELSE k]

(* ---- facts ------------------------------------------------------------------- *)
RPath(p) == Join([i \in 1..Len(Segs(p)) |-> RustName("m", Segs(p)[i])], ".")
Paren(ss) == "(" \o Join(ss, ",") \o ")"
Doc(cfg, kind, path, d) ==
    IF cfg.docs /\ d # "" THEN {"doc|" \o kind \o "|" \o path \o "|" \o FormatDoc(d)} ELSE {}
Item(kind, path, names, types, ret) ==
    {kind \o "|" \o path \o Paren(names), "sig|" \o path \o Paren(types) \o "->" \o ret}
FnItem(cfg, kind, path, f, ret, env) ==
    Item(kind, path, [i \in 1..Len(f.ps) |-> "p_" \o f.ps[i].n],
         [i \in 1..Len(f.ps) |-> BorrowedRs(f.ps[i].t, env)], ret)
    \cup Doc(cfg, kind, path, f.doc)

RECURSIVE FreeName(_, _, _)
FreeName(base, i, taken) ==
    LET n == IF i = 0 THEN base ELSE base \o ToString(i) IN
    IF n \in taken THEN FreeName(base, i + 1, taken) ELSE n

AccessorName(prefix, n) == prefix \o "_" \o San(n)
(* Name of the getter/setter of n next to items named `taken`; "" if there is none *)
GetterName(n, taken) ==
    IF HasRustName(n) /\ n \notin taken /\ n \notin Forbidden THEN n
    ELSE LET g == AccessorName("get", n) IN IF g \in taken \cup Forbidden THEN "" ELSE g
SetterName(n, taken) ==
    LET s == AccessorName("set", n) IN IF s \in taken \cup Forbidden THEN "" ELSE s
PropItems(cfg, kind, path, p, taken, env) ==
    LET g == GetterName(Leaf(p.name), taken)
        s == SetterName(Leaf(p.name), taken)
    IN (IF g = "" THEN {}
        ELSE Item(kind, path \o g, << >>, << >>, OwnedRs(p.gt, env)) \cup Doc(cfg, kind, path \o g, p.gdoc))
       \cup (IF ~p.mut \/ s = "" THEN {}
             ELSE Item(kind, path \o s, << "p_value" >>, << BorrowedRs(p.st, env) >>, "()")
                  \cup Doc(cfg, kind, path \o s, p.sdoc))

LeafNames(S) == {Leaf(x.name) : x \in S}
ClassFacts(cfg, c, at, env) ==
    LET me == at \o "." \o RustName("s", Leaf(c.name))
        methods == LeafNames(c.fns)
        ctor == {f \in c.fns : f.c = "ctor"}
        call == {f \in c.fns : f.c = "call"}
        taken == methods \cup (IF ctor # {} THEN {FreeName("new", 0, methods)} ELSE {}) \cup (IF call # {} THEN {FreeName("call", 0, methods)} ELSE {})
        fact(f) ==
            CASE f.c = "ctor" -> FnItem(cfg, "ctor", me \o "::" \o FreeName("new", 0, methods), f, "Self", env)
              [] f.c = "call" -> FnItem(cfg, "method", me \o "::" \o FreeName("call", 0, methods), f, OwnedRs(f.ret, env), env)
              [] f.c = "inst" -> FnItem(cfg, "method", me \o "::" \o RustName("f", Leaf(f.name)), f, OwnedRs(f.ret, env), env)
              [] f.c \in {"static", "class"} ->
                    FnItem(cfg, "static", me \o "::" \o RustName("f", Leaf(f.name)), f, OwnedRs(f.ret, env), env)
              [] OTHER -> {}
    IN {"struct|" \o me, "pyname|" \o me \o "|" \o c.name}
       \cup Doc(cfg, "struct", me, c.doc)
       \cup UNION {fact(f) : f \in c.fns}
       \cup UNION {PropItems(cfg, "method", me \o "::", p,
                        taken \cup {Leaf(q.name) : q \in {q \in c.props : q.name # p.name}}, env) : p \in c.props}

(* A `pub use` is emitted for what comes from the module's own tree and exists there *)
UseImports(cfg, tree, node) ==
    IF ~cfg.imports THEN {}
    ELSE {i \in node.imports : i.o \in Existing(cfg, tree)}
UseFacts(cfg, tree, node) ==
    {"use|" \o RPath(node.name) \o "." \o Leaf(i.t) \o "|" \o i.o :
        i \in {i \in UseImports(cfg, tree, node) :
                 Under(i.o, Parent(i.t)) /\ Under(i.o, Root(i.t)) /\ PathHasRustName(i.o) /\ HasRustName(Leaf(i.t))}}

Immediate(cfg, tree, node) ==
    ChildNames(tree, node.name)
    \cup (IF cfg.classes THEN LeafNames(node.classes) ELSE {})
    \cup (IF cfg.functions THEN LeafNames(node.fns) ELSE {})
    \cup (IF cfg.typevars THEN {Leaf(t) : t \in node.typevars} ELSE {})
    \cup (IF cfg.properties THEN LeafNames(node.props) ELSE {})
PreludeFacts(cfg, tree, node) ==
    LET ex == {n \in node.prelude : n \in Immediate(cfg, tree, node) /\ HasRustName(n)}
        all == Immediate(cfg, tree, node) \cup (IF cfg.imports THEN {Leaf(i.t) : i \in node.imports} ELSE {})
    IN IF ~cfg.preludes \/ ex = {} THEN {}
       ELSE {"preludemod|" \o RPath(node.name) \o "|" \o FreeName("call", 0, all)}
            \cup {"prelude|" \o RPath(node.name) \o "|" \o n : n \in ex}

NodeFacts(cfg, tree, p, embedded) ==
    LET node == tree[p]
        at == RPath(p)
        env == TypeEnv(cfg, tree, node)
        taken(q) == LeafNames(node.fns) \cup LeafNames(node.classes)
                    \cup {Leaf(i.t) : i \in UseImports(cfg, tree, node)}
                    \cup {Leaf(r.name) : r \in {r \in node.props : r.name # q.name}}
    IN {"mod|" \o at}
       \cup Doc(cfg, "mod", at, node.doc)
       \cup (IF p \in embedded THEN {"embed|" \o at} ELSE {})
       \cup UseFacts(cfg, tree, node)
       \cup PreludeFacts(cfg, tree, node)
       \cup (IF cfg.typevars THEN {"type|" \o at \o "." \o RustName("t", Leaf(t)) \o "|Any" : t \in node.typevars} ELSE {})
       \cup (IF cfg.classes THEN UNION {ClassFacts(cfg, c, at, env) : c \in node.classes} ELSE {})
       \cup (IF cfg.functions
             THEN UNION {FnItem(cfg, "fn", at \o "." \o RustName("f", Leaf(f.name)), f, OwnedRs(f.ret, env), env) : f \in node.fns}
             ELSE {})
       \cup (IF cfg.properties
             THEN UNION {PropItems(cfg, "fn", at \o ".", q, taken(q), env) : q \in node.props}
             ELSE {})
Facts(cfg, tree, embedded) == UNION {NodeFacts(cfg, tree, p, embedded) : p \in DOMAIN tree}
================================================================================
