--------------------------------- MODULE Python ---------------------------------
(* A small model of Python: source files made of statements, what importing them  *)
(* does to the interpreter (sys.modules and the namespaces of modules), and what  *)
(* inspecting a module then shows (the views of module Engine).                   *)
(*                                                                                *)
(* A world maps module names to files [pkg, doc, ss]; pkg says that it is a       *)
(* package (a directory) and ss are its statements. A package with a field ns  *)
(* is a directory without a file: it can be imported, but is not listed.          *)
(* An interpreter state is [loaded, env, err]: loaded are the keys of sys.modules *)
(* and env[m][x] is the object that the name x is bound to in module m.           *)
EXTENDS PyTypes

(* ---- annotation terms ------------------------------------------------------- *)
(* [a |-> constructor, xs |-> arguments, s |-> text]                              *)
A0(a) == [a |-> a, xs |-> << >>, s |-> ""]
AN(a, xs) == [a |-> a, xs |-> xs, s |-> ""]
AS(a, s) == [a |-> a, xs |-> << >>, s |-> s]
NoAnn == A0("")

BuiltinNames == {"int", "str", "bool", "float", "bytes", "bytearray", "complex", "slice", "list",
    "dict", "set", "frozenset", "tuple", "type"}
(* builtin classes that the engine does not know *)
OtherBuiltins == {"object", "range", "memoryview"}
(* classes of the standard library: expression |-> [base, qualified name] *)
StdClasses ==
    ("datetime.datetime" :> [b |-> "datetime", q |-> "datetime.datetime"])
    @@ ("datetime.date" :> [b |-> "date", q |-> "datetime.date"])
    @@ ("datetime.time" :> [b |-> "time", q |-> "datetime.time"])
    @@ ("datetime.timedelta" :> [b |-> "timedelta", q |-> "datetime.timedelta"])
    @@ ("datetime.tzinfo" :> [b |-> "tzinfo", q |-> "datetime.tzinfo"])
    @@ ("datetime.timezone" :> [b |-> "tzinfo", q |-> "datetime.timezone"])
    @@ ("pathlib.Path" :> [b |-> "", q |-> "pathlib.Path"])
    @@ ("pathlib.PurePath" :> [b |-> "", q |-> "pathlib.PurePath"])
    @@ ("os.PathLike" :> [b |-> "", q |-> "os.PathLike"])
    @@ ("ipaddress.IPv4Address" :> [b |-> "", q |-> "ipaddress.IPv4Address"])
    @@ ("ipaddress.IPv6Address" :> [b |-> "", q |-> "ipaddress.IPv6Address"])
    @@ ("ipaddress.IPv4Network" :> [b |-> "", q |-> "ipaddress.IPv4Network"])
    @@ ("collections.OrderedDict" :> [b |-> "dict", q |-> "collections.OrderedDict"])
    @@ ("collections.Counter" :> [b |-> "dict", q |-> "collections.Counter"])
    @@ ("collections.deque" :> [b |-> "", q |-> "collections.deque"])
    @@ ("decimal.Decimal" :> [b |-> "", q |-> "decimal.Decimal"])
    @@ ("fractions.Fraction" :> [b |-> "", q |-> "fractions.Fraction"])
    @@ ("enum.IntEnum" :> [b |-> "int", q |-> "enum.IntEnum"])
    @@ ("types.FunctionType" :> [b |-> "function", q |-> "function"])
    @@ ("types.BuiltinFunctionType" :> [b |-> "cfunction", q |-> "builtin_function_or_method"])
    @@ ("types.ModuleType" :> [b |-> "module", q |-> "module"])
    @@ ("types.CodeType" :> [b |-> "code", q |-> "code"])
    @@ ("types.FrameType" :> [b |-> "frame", q |-> "frame"])
    @@ ("types.TracebackType" :> [b |-> "traceback", q |-> "traceback"])
    @@ ("types.MethodType" :> [b |-> "", q |-> "method"])
    @@ ("functools.partialmethod" :> [b |-> "", q |-> "functools.partialmethod"])
    @@ ("types.SimpleNamespace" :> [b |-> "", q |-> "types.SimpleNamespace"])
    @@ ("types.NoneType" :> [b |-> "", q |-> "NoneType"])
    @@ ("collections.abc.Callable" :> [b |-> "", q |-> "collections.abc.Callable"])
    @@ ("collections.abc.Sequence" :> [b |-> "", q |-> "collections.abc.Sequence"])
    @@ ("collections.abc.Mapping" :> [b |-> "", q |-> "collections.abc.Mapping"])
    @@ ("collections.abc.Iterable" :> [b |-> "", q |-> "collections.abc.Iterable"])
    @@ ("collections.abc.Iterator" :> [b |-> "", q |-> "collections.abc.Iterator"])
    @@ ("collections.abc.Generator" :> [b |-> "", q |-> "collections.abc.Generator"])
    @@ ("super" :> [b |-> "super", q |-> "super"])
(* aliases of module typing: name |-> the builtin or collections.abc class *)
TypingAliases ==
    ("List" :> "list") @@ ("Dict" :> "dict") @@ ("Set" :> "set") @@ ("FrozenSet" :> "frozenset")
    @@ ("Tuple" :> "tuple") @@ ("Type" :> "type") @@ ("Sequence" :> "collections.abc.Sequence")
    @@ ("Iterable" :> "collections.abc.Iterable") @@ ("Iterator" :> "collections.abc.Iterator")
    @@ ("Mapping" :> "collections.abc.Mapping") @@ ("Callable" :> "collections.abc.Callable")
    @@ ("Counter" :> "collections.Counter") @@ ("OrderedDict" :> "collections.OrderedDict")
    @@ ("Generator" :> "collections.abc.Generator") @@ ("Deque" :> "collections.deque")

ClsV(base, repr) == [v |-> "cls", base |-> base, repr |-> repr]
StrV(s) == [v |-> "str", s |-> s]
ObjV(r) == [v |-> "obj", repr |-> r]
EmptyV == [v |-> "empty"]
TypingV(has, origin, hasargs, args, meta, repr) ==
    [v |-> "typing", has |-> has, origin |-> origin, hasargs |-> hasargs, args |-> args,
     meta |-> meta, repr |-> repr]
ClassRepr(q) == "<class '" \o q \o "'>"
IsClassName(a) == a \in BuiltinNames \cup OtherBuiltins \cup DOMAIN StdClasses
ClassNameView(a) ==
    IF a \in BuiltinNames THEN ClsV(a, ClassRepr(a))
    ELSE IF a \in OtherBuiltins THEN ClsV("", ClassRepr(a))
    ELSE ClsV(StdClasses[a].b, ClassRepr(StdClasses[a].q))
QualName(a) == IF a \in DOMAIN StdClasses THEN StdClasses[a].q ELSE a

(* The class or type variable that name n refers to, for terms [a |-> "ref", s |-> n] *)
RefView(env, n) ==
    LET o == env[n] IN
    IF o.k = "class" THEN ClsV(o.x.base, ClassRepr(Dot(o.m, o.an)))
    ELSE TypingV(FALSE, EmptyV, FALSE, << >>, FALSE, "~" \o o.an)
RefQual(env, n) == LET o == env[n] IN IF o.k = "class" THEN Dot(o.m, o.an) ELSE "~" \o o.an

(* Terms: a class name; "None", "..." ; "generic:C" (C[...] of a builtin or abc class); *)
(* "typing:L" (typing.L, with arguments unless xs is empty); "Optional", "Union";       *)
(* "|"; "Any"; "ref"; "lit" (a string); "Annotated"; "Literal"; "callable" (xs:          *)
(* parameters and then the result) of "typing:Callable" and "generic:collections.abc.Callable" *)
IsTyping(t) == StartsWith(t.a, "typing:") \/ t.a \in {"Optional", "Union", "Annotated", "Literal"}
IsGeneric(t) == StartsWith(t.a, "generic:")
TypingName(t) == DropPrefix(t.a, "typing:")
GenericName(t) == DropPrefix(t.a, "generic:")
RECURSIVE Repr(_, _), View(_, _), HasTyping(_)
HasTyping(t) == IsTyping(t) \/ (t.a = "|" /\ \E i \in 1..Len(t.xs) : HasTyping(t.xs[i]))
(* How a term is shown inside of the repr() of another one *)
Repr(t, env) ==
    LET args == [i \in 1..Len(t.xs) |-> Repr(t.xs[i], env)]
        list == Join(args, ", ")
        call == "[" \o Join([i \in 1..(Len(args) - 1) |-> args[i]], ", ") \o "], " \o args[Len(args)]
    IN CASE t.a = "None" -> "None"
         [] t.a = "..." -> "..."
         [] t.a = "Any" -> "typing.Any"
         [] t.a = "ref" -> RefQual(env, t.s)
         [] t.a = "lit" -> "'" \o t.s \o "'"
         [] IsClassName(t.a) -> QualName(t.a)
         [] IsGeneric(t) ->
              IF GenericName(t) = "collections.abc.Callable"
              THEN "collections.abc.Callable[[" \o DropPrefix(call, "[") \o "]"
              ELSE QualName(GenericName(t)) \o "[" \o list \o "]"
         [] t.a = "|" -> Join(args, " | ")
         [] t.a = "Optional" -> "typing.Optional[" \o list \o "]"
         [] t.a = "Union" -> "typing.Union[" \o list \o "]"
         [] t.a = "Annotated" -> "typing.Annotated[" \o list \o ", 1]"
         [] t.a = "Literal" -> "typing.Literal[" \o list \o "]"
         [] t.a = "typing:Callable" /\ t.xs # << >> -> "typing.Callable[[" \o DropPrefix(call, "[") \o "]"
         [] OTHER -> "typing." \o TypingName(t) \o (IF t.xs = << >> THEN "" ELSE "[" \o list \o "]")
UnionOrigin == TypingV(FALSE, EmptyV, FALSE, << >>, FALSE, "typing.Union")
NoneTypeV == ClsV("", ClassRepr("NoneType"))
EllipsisV == ObjV("Ellipsis")
(* The object itself, as an annotation *)
View(t, env) ==
    LET args == [i \in 1..Len(t.xs) |->
                    IF t.xs[i].a = "None" THEN NoneTypeV
                    ELSE IF t.xs[i].a = "lit"
                         THEN TypingV(FALSE, EmptyV, FALSE, << >>, FALSE, "ForwardRef('" \o t.xs[i].s \o "')")
                    ELSE View(t.xs[i], env)]
    IN CASE t.a = "" -> EmptyV
         [] t.a = "None" -> [v |-> "none"]
         [] t.a = "..." -> EllipsisV
         [] t.a = "Any" -> ClsV("", "typing.Any")
         [] t.a = "ref" -> RefView(env, t.s)
         [] t.a = "lit" -> StrV(t.s)
         [] IsClassName(t.a) -> ClassNameView(t.a)
         [] IsGeneric(t) -> ObjV(Repr(t, env))
         [] t.a = "|" /\ ~HasTyping(t) -> ObjV(Repr(t, env))
         [] t.a \in {"|", "Union", "Optional"} ->
              TypingV(TRUE, UnionOrigin, TRUE,
                      IF t.a = "Optional" THEN args \o << NoneTypeV >> ELSE args, FALSE, Repr(t, env))
         [] t.a = "Annotated" -> TypingV(TRUE, args[1], TRUE, args, TRUE, Repr(t, env))
         [] t.a = "Literal" -> TypingV(TRUE, TypingV(FALSE, EmptyV, FALSE, << >>, FALSE, "typing.Literal"),
                                      TRUE, [i \in 1..Len(t.xs) |-> StrV(t.xs[i].s)], FALSE, Repr(t, env))
         [] OTHER -> TypingV(TRUE, ClassNameView(TypingAliases[TypingName(t)]), t.xs # << >>, args, FALSE, Repr(t, env))

(* ---- objects ----------------------------------------------------------------- *)
(* [k, m, an, loc, x]: kind, __module__, __name__, <locals>, payload               *)
Object(k, m, an, x) == [k |-> k, m |-> m, an |-> an, loc |-> FALSE, x |-> x]
NoX == [none |-> TRUE]
ModuleObj(p) == Object("module", "", p, NoX)
(* values: expression |-> view of their type *)
ValueType(e) ==
    CASE e = "None" -> NoneTypeV
      [] e = "object" -> ClsV("", ClassRepr("object"))
      [] e \in {"datetime.datetime", "pathlib.Path"} -> IF e = "pathlib.Path" THEN ClsV("", ClassRepr("pathlib.PosixPath")) ELSE ClassNameView(e)
      [] OTHER -> ClassNameView(e)
ValueModule(e) == CASE e = "pathlib.Path" -> "pathlib" [] e = "functools.partialmethod" -> "functools" [] OTHER -> ""

ParamV(p, env) == [n |-> p.n, k |-> p.k, t |-> View(p.t, env)]
ParamsV(ps, env) == [i \in 1..Len(ps) |-> ParamV(ps[i], env)]
FnV(doc, ps, ret, env) == [doc |-> doc, sig |-> TRUE, ps |-> ParamsV(ps, env), ret |-> View(ret, env)]
NoSig(doc) == [doc |-> doc, sig |-> FALSE, ps |-> << >>, ret |-> EmptyV]
AnyArgs(doc) == FnV(doc, << [n |-> "args", k |-> 2, t |-> NoAnn], [n |-> "kwargs", k |-> 4, t |-> NoAnn] >>, NoAnn, << >>)

(* Members of a class: [n, m, k, own, x], from one statement of its body *)
ValueProp(t) == [g |-> FALSE, gsig |-> FALSE, gret |-> EmptyV, gdoc |-> "", s |-> FALSE, ssig |-> FALSE,
                 sps |-> << >>, sdoc |-> "", t |-> t]
Member(s, m, env) ==
    CASE s.b = "def" -> << [n |-> s.n, m |-> m, k |-> IF s.c = "class" THEN "method" ELSE "pyfunc", own |-> s.c,
                        x |-> FnV(s.doc, IF s.c = "class" THEN Tail(s.ps) ELSE s.ps, s.ret, env)] >>
      [] s.b = "prop" ->
            << [n |-> s.n, m |-> "", k |-> "value", own |-> "inst",
                x |-> [g |-> TRUE, gsig |-> TRUE, gret |-> View(s.ret, env), gdoc |-> s.doc,
                       s |-> s.set, ssig |-> s.set,
                       sps |-> IF "sps" \in DOMAIN s THEN ParamsV(s.sps, env) ELSE IF s.set THEN ParamsV(<< [n |-> "self", k |-> 1, t |-> NoAnn],
                                                       [n |-> "value", k |-> 1, t |-> s.st] >>, env) ELSE << >>,
                       sdoc |-> s.sdoc, t |-> ClsV("", ClassRepr("property"))]] >>
      [] s.b = "val" -> << [n |-> s.n, m |-> ValueModule(s.e), k |-> "value", own |-> "inst", x |-> ValueProp(ValueType(s.e))] >>
      [] s.b = "nested" -> << [n |-> s.n, m |-> m, k |-> "class", own |-> "inst", x |-> NoX] >>
      [] OTHER -> << >>
(* object.__init__, unless the class has its own *)
SlotInit == [n |-> "__init__", m |-> "", k |-> "value", own |-> "", x |-> ValueProp(ClsV("", ClassRepr("wrapper_descriptor")))]
(* __x in the body of class C is called _C__x *)
RECURSIVE DropUnderscores(_)
DropUnderscores(n) == IF StartsWith(n, "_") THEN DropUnderscores(DropPrefix(n, "_")) ELSE n
Mangled(class, n) == IF StartsWith(n, "__") /\ ~EndsWith(n, "__") /\ DropUnderscores(class) # ""
                     THEN "_" \o DropUnderscores(class) \o n ELSE n
RECURSIVE BodyMembers(_, _, _, _)
(* later statements replace earlier ones of the same name *)
BodyMembers(body, m, env, acc) ==
    IF body = << >> THEN acc
    ELSE LET new == Member(Head(body), m, env) IN
         BodyMembers(Tail(body), m, env,
             IF new = << >> THEN acc ELSE SelectSeq(acc, LAMBDA x : x.n # new[1].n) \o new)
ClassMembers(s, m, env) ==
    LET body == [i \in 1..Len(s.body) |-> [s.body[i] EXCEPT !.n = Mangled(s.n, @)]]
        own == BodyMembers(body, m, env, << >>)
        has(n) == \E i \in 1..Len(own) : own[i].n = n
        inherited == IF s.base # "" /\ s.base \in DOMAIN env
                     THEN SelectSeq(env[s.base].x.mem, LAMBDA x : ~has(x.n))
                     ELSE IF has("__init__") THEN << >> ELSE << SlotInit >>
    IN own \o [i \in 1..Len(inherited) |-> [inherited[i] EXCEPT !.own = ""]]
(* the builtin that a class derives from (Bases), for annotations *)
ClassBase(s, env) ==
    IF s.base \in DOMAIN env THEN env[s.base].x.base ELSE IF s.base \in BuiltinNames THEN s.base ELSE ""

BuiltinFn ==
    ("len" :> FnV("Return the number of items in a container.", << [n |-> "obj", k |-> 0, t |-> NoAnn] >>, NoAnn, << >>))
    @@ ("abs" :> FnV("Return the absolute value of the argument.", << [n |-> "x", k |-> 0, t |-> NoAnn] >>, NoAnn, << >>))
    @@ ("getattr" :> NoSig("Get a named attribute from an object.\n\ngetattr(x, 'y') is equivalent to x.y\nWhen a default argument is given, it is returned when the attribute doesn't\nexist; without it, an exception is raised in that case."))

(* ---- running modules ----------------------------------------------------------- *)
NoEnv == [x \in {} |-> 0]
Interp0 == [loaded |-> {}, env |-> [x \in {} |-> NoEnv], info |-> [x \in {} |-> 0], err |-> FALSE]
BindName(st, m, n, o) == [st EXCEPT !.env[m] = (n :> o) @@ @]
Fail(st) == [st EXCEPT !.err = TRUE]

RECURSIVE Import(_, _, _), ImportTop(_, _, _), Exec(_, _, _), Run(_, _, _, _), StarBind(_, _, _, _), StarSubs(_, _, _, _)
StarBind(st, m, from, names) ==
    IF names = {} THEN st
    ELSE LET n == CHOOSE n \in names : TRUE
         IN StarBind(BindName(st, m, n, st.env[from][n]), m, from, names \ {n})
AllName == "__all__"
(* import a.b.c as n: attribute by attribute (or what sys.modules has instead) *)
NoObj == Object("none", "", "", NoX)
(* what sys.modules has for m: the module, or what it put there instead of itself *)
EntryOf(st, m) == st.info[m].entry
(* the name of the module whose namespace that is *)
Space(st, m) == EntryOf(st, m).an
RECURSIVE FromRoot(_, _, _)
FromRoot(st, o, segs) ==
    IF segs = << >> THEN o
    ELSE IF o.k \notin {"module", "stub"} THEN NoObj
    ELSE LET n == Head(segs) IN
         FromRoot(st, IF n \in DOMAIN st.env[o.an] THEN st.env[o.an][n]
                  ELSE IF Dot(o.an, n) \in st.loaded THEN EntryOf(st, Dot(o.an, n)) ELSE NoObj, Tail(segs))
(* the submodules of a package that its __all__ lists are imported by a star import *)
StarSubs(W, st, from, names) ==
    IF names = << >> \/ st.err THEN st
    ELSE LET full == Dot(from, Head(names)) IN
         StarSubs(W, IF Head(names) \notin DOMAIN st.env[from] /\ st.info[from].pkg /\ full \in DOMAIN W THEN Import(W, st, full) ELSE st,
                from, Tail(names))
Statement(W, st, m, s) ==
    LET env == st.env[m]
        bind(o) == BindName(st, m, s.n, o)
    IN CASE s.s = "def" -> bind(Object("pyfunc", m, s.n, FnV(s.doc, s.ps, s.ret, env)))
         [] s.s = "class" -> bind(Object("class", m, s.n,
                [doc |-> s.doc, mem |-> ClassMembers(s, m, env), base |-> ClassBase(s, env)]))
         [] s.s = "foreign" ->   \* a class whose __module__ names another module
                bind(Object("class", s.of, s.n, [doc |-> "", mem |-> << SlotInit >>, base |-> ""]))
         [] s.s = "val" -> bind(Object("value", ValueModule(s.e), s.n, [t |-> ValueType(s.e)]))
         [] s.s = "inst" ->      \* an instance of the class s.of
                bind(Object("value", env[s.of].m, s.n, [t |-> RefView(env, s.of)]))
         [] s.s = "tvar" -> bind(Object("typ", m, s.n, NoX))
         [] s.s = "talias" ->    \* what another type is made of, under a new name
                bind(IF "e" \notin DOMAIN s THEN Object("typ", "builtins", "list", NoX)
                     ELSE CASE s.e = "union" -> Object("typ", "", s.n, NoX)
                            [] s.e \in {"newtype", "paramspec", "tuplevar"} -> Object("typ", m, s.n, NoX)
                            [] s.e = "dict" -> Object("typ", "builtins", "dict", NoX)
                            [] s.e = "callable" -> Object("value", "collections.abc", s.n, [t |-> ClsV("", ClassRepr("collections.abc._CallableGenericAlias"))])   \* of no type that is known
                            [] OTHER -> Object("typ", "typing", "List", NoX))   \* of module typing itself
         [] s.s = "lambda" -> bind(Object("pyfunc", m, "<lambda>", FnV("", s.ps, NoAnn, env)))
         [] s.s = "closure" ->   \* defined inside of another function
                bind([Object("pyfunc", m, s.n, FnV("", s.ps, NoAnn, env)) EXCEPT !.loc = TRUE])
         [] s.s = "partial" ->   \* functools.partial of a function of this module, no argument bound
                bind(Object("partial", "functools", s.n, [env[s.of].x EXCEPT !.doc = ""]))
         [] s.s = "builtin" -> bind(Object("builtin", "builtins", s.of, BuiltinFn[s.of]))
         [] s.s = "boundm" ->    \* a bound method (of an instance of a class of this module)
                bind(Object("method", m, "meth", NoX))
         [] s.s = "alias" -> bind(env[s.of])
         [] s.s = "all" -> BindName(st, m, AllName, Object("value", "", AllName, [t |-> ClassNameView("list"), names |-> s.names]))
         [] s.s = "virt" ->      \* a module without a file, created by its parent: s.of is its full name
                LET st1 == Exec((s.of :> s.file) @@ W, st, s.of)
                IN IF st1.err THEN st1 ELSE BindName(st1, m, s.n, Object("module", m, s.of, NoX))
         [] s.s \in {"raise", "exit", "syntax"} -> Fail(st)
         [] s.s = "from" ->
                LET st1 == Import(W, st, s.of)
                    full == Dot(s.of, s.name)
                    st2 == IF st1.err \/ s.name \in DOMAIN st1.env[Space(st1, s.of)] \/ full \notin DOMAIN W THEN st1 ELSE Import(W, st1, full)
                IN IF st2.err THEN Fail(st2)
                   ELSE IF s.name \in DOMAIN st2.env[Space(st2, s.of)] THEN BindName(st2, m, s.n, st2.env[Space(st2, s.of)][s.name])
                   \* a module that is being imported is in sys.modules before it is bound in its parent
                   ELSE IF full \in st2.loaded THEN BindName(st2, m, s.n, EntryOf(st2, full))
                   ELSE Fail(st2)
         [] s.s = "star" ->
                LET st0 == Import(W, st, s.of)
                    of == IF st0.err THEN s.of ELSE Space(st0, s.of)
                    st1 == IF ~st0.err /\ AllName \in DOMAIN st0.env[of] THEN StarSubs(W, st0, of, st0.env[of][AllName].x.names) ELSE st0
                    from == st1.env[of]
                    names == IF AllName \in DOMAIN from THEN Range(from[AllName].x.names)
                             ELSE {n \in DOMAIN from : ~StartsWith(n, "_")}
                IN IF st1.err THEN st1
                   ELSE IF ~(names \subseteq DOMAIN from) THEN Fail(st1)
                   ELSE StarBind(st1, m, of, names)
         [] s.s = "import" ->    \* import a.b.c [as n]
                LET st1 == ImportTop(W, st, s.of)
                IN IF st1.err THEN st1
                   ELSE IF s.n = "" THEN BindName(st1, m, Root(s.of), EntryOf(st1, Root(s.of)))
                   ELSE LET o == FromRoot(st1, EntryOf(st1, Root(s.of)), Tail(Segs(s.of))) IN IF o = NoObj THEN Fail(st1) ELSE BindName(st1, m, s.n, o)
         [] s.s = "try" ->       \* try: import s.of; except BaseException: pass
                [ImportTop(W, st, s.of) EXCEPT !.err = FALSE]
         [] s.s = "bomb" ->      \* a class whose __doc__ cannot be read
                bind(Object("class", m, s.n, [doc |-> "<raises>", mem |-> << SlotInit >>, base |-> ""]))
         [] s.s = "stub" ->      \* an object with the same namespace takes the place of the module
                [st EXCEPT !.info[m].entry = Object("stub", m, m, [t |-> ClsV("", ClassRepr(Dot(m, "Stub")))])]
         [] s.s = "shim" ->      \* another module takes the place of the module
                LET st1 == ImportTop(W, st, s.of)
                IN IF st1.err THEN st1 ELSE [st1 EXCEPT !.info[m].entry = EntryOf(st1, s.of)]
         [] s.s = "nodoc" ->     \* from now on, the __doc__ of the module cannot be read
                [st EXCEPT !.info[m].doc = "<raises>"]
         [] OTHER -> st          \* print and other statements that bind nothing
Run(W, st, m, ss) ==
    IF ss = << >> \/ st.err THEN st ELSE Run(W, Statement(W, st, m, Head(ss)), m, Tail(ss))
Exec(W, st, m) ==
    LET st1 == [st EXCEPT !.loaded = @ \cup {m}, !.env = (m :> NoEnv) @@ @,
                          !.info = (m :> [pkg |-> W[m].pkg, doc |-> W[m].doc, entry |-> ModuleObj(m)]) @@ @]
        st2 == Run(W, st1, m, W[m].ss)
    IN IF ~st2.err THEN st2
       ELSE [st2 EXCEPT !.loaded = @ \ {m}, !.env = [x \in DOMAIN @ \ {m} |-> @[x]]]
(* what is in sys.modules is not imported again, and neither are its parents *)
Import(W, st, p) ==
    IF st.err \/ p \in st.loaded THEN st
    ELSE LET st1 == IF Parent(p) = "" THEN st ELSE Import(W, st, Parent(p)) IN
         IF st1.err \/ p \in st1.loaded THEN st1
         ELSE IF p \notin DOMAIN W THEN Fail(st1)
         ELSE LET st2 == Exec(W, st1, p) IN
              IF st2.err \/ Parent(p) \notin DOMAIN st2.env THEN st2
              ELSE BindName(st2, Parent(p), Leaf(p), EntryOf(st2, p))
(* import a.b.c, and __import__(): these look up the top-level package as well *)
ImportTop(W, st, p) == Import(W, Import(W, st, p), Root(p))

(* Inspecting module m of the interpreter *)
ModuleView(W, st, m) ==
    LET env == st.env[m]
        names == SetToSeq(DOMAIN env \ {AllName})
    IN [name |-> m, pkg |-> st.info[m].pkg, doc |-> st.info[m].doc,
        all |-> AllName \in DOMAIN env,
        allnames |-> IF AllName \in DOMAIN env THEN env[AllName].x.names ELSE << >>,
        subs |-> IF st.info[m].pkg THEN SetToSeq({Leaf(p) : p \in {p \in DOMAIN W : Parent(p) = m /\ "ns" \notin DOMAIN W[p]}}) ELSE << >>,
        attrs |-> [i \in 1..Len(names) |->
                     LET o == env[names[i]] IN
                     [n |-> names[i], m |-> o.m, an |-> o.an, k |-> IF o.k = "stub" THEN "value" ELSE o.k, loc |-> o.loc, x |-> o.x]]]
================================================================================
