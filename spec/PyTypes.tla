-------------------------------- MODULE PyTypes --------------------------------
(* The engine's view of Python annotations, and the Rust types they become.      *)
(*                                                                                *)
(* A parsed type is [t |-> constructor, a |-> arguments, s |-> text]; the         *)
(* constructors are those of the engine's Type enum. An annotation *view* is what *)
(* the engine can see of a live Python annotation object:                         *)
(*   [v |-> "empty"]                  no annotation                                *)
(*   [v |-> "none"]                   the object None                              *)
(*   [v |-> "cls", base, repr]        a class; base = first match in Bases or ""   *)
(*   [v |-> "typing", has, origin, hasargs, args, meta, repr]  object of module typing *)
(*   [v |-> "str", s]                 a string                                     *)
(*   [v |-> "obj", repr]              anything else                                *)
EXTENDS Lex

T0(c) == [t |-> c, a |-> << >>, s |-> ""]
T1(c, x) == [t |-> c, a |-> << x >>, s |-> ""]
TN(c, xs) == [t |-> c, a |-> xs, s |-> ""]
Unknown == T0("Unknown")
AnyDict == TN("PyDict", << Unknown, Unknown >>)
Other(x) == [t |-> "Other", a |-> << >>, s |-> x]
AnyFunction == TN("PyFunction", << T0("PyEllipsis"), Unknown >>)

ForbiddenTypeNames == {"_collections._tuplegetter", "AsyncState", "getset_descriptor",
    "member_descriptor", "method_descriptor", "property", "py"}

Opens(s) == Count(s, "[")
Closes(s) == Count(s, "]")
(* Pieces of a split annotation are merged until all brackets opened are closed *)
RECURSIVE Merge(_, _, _)
Merge(ps, sep, i) ==
    IF i > Len(ps) THEN ps
    ELSE IF i < Len(ps) /\ Opens(ps[i]) > Closes(ps[i])
         THEN Merge(SubSeq(ps, 1, i - 1) \o << ps[i] \o sep \o ps[i + 1] >> \o SubSeq(ps, i + 2, Len(ps)), sep, i)
         ELSE Merge(ps, sep, i + 1)
SplitTop(s, sep) ==
    LET raw == Split(s, sep) IN Merge([i \in 1..Len(raw) |-> Trim(raw[i])], sep, 1)

Simple ==
    ("Any" :> T0("PyAny")) @@ ("bool" :> T0("PyBool")) @@ ("bytearray" :> T0("PyByteArray"))
    @@ ("bytes" :> T0("PyBytes")) @@ ("float" :> T0("PyFloat")) @@ ("int" :> T0("PyLong"))
    @@ ("str" :> T0("PyString")) @@ ("Union" :> TN("Union", << Unknown >>))
    @@ ("" :> T0("PyNone")) @@ ("None" :> T0("PyNone")) @@ ("NoneType" :> T0("PyNone"))
    @@ ("dict" :> AnyDict) @@ ("Dict" :> AnyDict) @@ ("Mapping" :> AnyDict)
    @@ ("frozenset" :> T1("PyFrozenSet", Unknown)) @@ ("set" :> T1("PySet", Unknown))
    @@ ("list" :> T1("PyList", Unknown)) @@ ("Sequence" :> T1("PyList", Unknown))
    @@ ("Iterable" :> T1("PyList", Unknown)) @@ ("Iterator" :> T1("PyList", Unknown))
    @@ ("tuple" :> T1("PyTuple", Unknown))
    @@ ("ipaddress.IPv4Address" :> T0("IpAddr")) @@ ("ipaddress.IPv6Address" :> T0("IpAddr"))
    @@ ("os.PathLike" :> T0("Path")) @@ ("pathlib.Path" :> T0("Path"))
    @@ ("slice" :> T0("PySlice")) @@ ("complex" :> T0("PyComplex"))
    @@ ("datetime.date" :> T0("PyDate")) @@ ("datetime.datetime" :> T0("PyDateTime"))
    @@ ("timedelta" :> T0("PyDelta")) @@ ("datetime.time" :> T0("PyTime"))
    @@ ("datetime.tzinfo" :> T0("PyTzInfo")) @@ ("capsule" :> T0("PyCapsule"))
    @@ ("cfunction" :> T0("PyCFunction")) @@ ("code" :> T0("PyCode"))
    @@ ("Ellipsis" :> T0("PyEllipsis")) @@ ("..." :> T0("PyEllipsis")) @@ ("frame" :> T0("PyFrame"))
    @@ ("function" :> AnyFunction) @@ ("Callable" :> AnyFunction) @@ ("callable" :> AnyFunction)
    @@ ("module" :> T0("PyModule")) @@ ("super" :> T0("PySuper")) @@ ("traceback" :> T0("PyTraceback"))
    @@ ("type" :> T0("PyType"))

(* Second element of a dictionary annotation (unknown if there is none) *)
DictOf(ts) == TN("PyDict", << ts[1], IF Len(ts) >= 2 THEN ts[2] ELSE Unknown >>)
(* parameters followed by the result *)
FunctionOf(ts) == TN("PyFunction", ts)

RECURSIVE FromStr(_)
FromStr(s) ==
    LET parts == SplitTop(s, "|")
        List(open) == T1("PyList", FromStr(Inner(s, open, "]")))
        Inners(open) == LET q == SplitTop(Inner(s, open, "]"), ",")
                        IN [i \in 1..Len(q) |-> FromStr(q[i])]
    IN
    IF s \in DOMAIN Simple THEN Simple[s]
    ELSE IF Len(parts) > 1 THEN
        IF Len(parts) = 2 /\ parts[2] = "None" /\ parts[1] # "None" THEN T1("Optional", FromStr(parts[1]))
        ELSE IF Len(parts) = 2 /\ parts[1] = "None" /\ parts[2] # "None" THEN T1("Optional", FromStr(parts[2]))
        ELSE TN("Union", [i \in 1..Len(parts) |-> FromStr(parts[i])])
    ELSE IF Wraps(s, "dict[", "]") THEN DictOf(Inners("dict["))
    ELSE IF Wraps(s, "frozenset[", "]") THEN T1("PyFrozenSet", FromStr(Inner(s, "frozenset[", "]")))
    ELSE IF Wraps(s, "list[", "]") THEN List("list[")
    ELSE IF Wraps(s, "Sequence[", "]") THEN List("Sequence[")
    ELSE IF Wraps(s, "Iterable[", "]") THEN List("Iterable[")
    ELSE IF Wraps(s, "Iterator[", "]") THEN List("Iterator[")
    ELSE IF Wraps(s, "set[", "]") THEN T1("PySet", FromStr(Inner(s, "set[", "]")))
    ELSE IF Wraps(s, "tuple[", "]") THEN TN("PyTuple", Inners("tuple["))
    ELSE IF Wraps(s, "Callable[", "]") THEN FunctionOf(Inners("Callable["))
    ELSE IF Wraps(s, "type[", "]") THEN T0("PyType")
    ELSE IF Wraps(s, "<class '", "'>") THEN FromStr(Inner(s, "<class '", "'>"))
    ELSE IF Wraps(s, "<enum '", "'>") THEN FromStr(Inner(s, "<enum '", "'>"))
    ELSE IF StartsWith(s, "typing.") THEN FromStr(DropPrefix(s, "typing."))
    ELSE IF StartsWith(s, "collections.abc.") THEN FromStr(DropPrefix(s, "collections.abc."))
    ELSE IF StartsWith(s, "collections.") THEN FromStr(DropPrefix(s, "collections."))
    ELSE IF s \in ForbiddenTypeNames THEN T0("PyAny")
    ELSE Other(s)

(* Subclasses of these classes are taken for the first one that matches *)
Bases == << "bool", "bytearray", "bytes", "float", "int", "str", "dict", "frozenset", "list", "set",
    "tuple", "slice", "complex", "datetime", "date", "timedelta", "time", "tzinfo", "capsule",
    "cfunction", "code", "frame", "function", "module", "super", "traceback", "type" >>
BaseType(b) ==
    CASE b = "datetime" -> T0("PyDateTime") [] b = "date" -> T0("PyDate") [] b = "timedelta" -> T0("PyDelta")
      [] b = "time" -> T0("PyTime") [] b = "tzinfo" -> T0("PyTzInfo") [] b = "type" -> T0("PyType")
      [] OTHER -> Simple[b]

RECURSIVE FromView(_)
FromView(v) ==
    CASE v.v = "empty" -> Unknown
      [] v.v = "none" -> Unknown
      [] v.v = "cls" -> IF v.base # "" THEN BaseType(v.base) ELSE FromStr(v.repr)
      [] v.v = "str" -> FromStr(v.s)
      [] v.v = "obj" -> FromStr(v.repr)
      [] v.v = "typing" ->
            IF ~v.has THEN FromStr(v.repr)
            ELSE LET w == FromView(v.origin) IN
                 IF v.meta \/ ~v.hasargs THEN w
                 ELSE LET ts == [i \in 1..Len(v.args) |-> FromView(v.args[i])] IN
                      CASE w.t = "Union" ->
                            IF Len(ts) = 2 /\ {ts[1], ts[2]} # {T0("PyNone")} /\ \E i \in 1..2 : ts[i] = T0("PyNone")
                            THEN T1("Optional", ts[CHOOSE i \in 1..2 : ts[i] # T0("PyNone")])
                            ELSE TN("Union", ts)
                        [] w.t \in {"Optional", "PyFrozenSet", "PyList", "PySet"} -> T1(w.t, ts[1])
                        [] w.t = "PyDict" -> DictOf(ts)
                        [] w.t = "PyTuple" -> TN("PyTuple", ts)
                        [] w.t = "PyFunction" -> FunctionOf(ts)
                        [] OTHER -> w

(* ---- Rust types ------------------------------------------------------------ *)
(* Local types: a function from Python names, as an annotation inside the module *)
(* spells them, to the (Rust) path of the generated struct or alias.              *)
Hashable(ty) == ty.t \in {"PyBool", "IpAddr", "Path", "PyLong", "PyString"}
StripArgs(s) == IF HasChar(s, "[") THEN SubSeq(s, 1, Positions(s, "[")[1] - 1) ELSE s
(* an annotation text as a dotted path (empty segments are dropped, except the first) *)
AsPath(s) == IF StartsWith(s, ".") THEN s ELSE Join(Segs(s), ".")
LocalOf(s, env) ==
    LET p == AsPath(StripArgs(s)) IN
    IF p \in DOMAIN env /\ PathHasRustName(env[p]) THEN env[p] ELSE ""

Obj(c) == [own |-> c, bor |-> "&" \o c]
AnyOut == [own |-> "Any", bor |-> "impl Any"]
Same(x) == [own |-> x, bor |-> x]
RECURSIVE Rs(_, _)
Rs(ty, env) ==
    LET Own(i) == Rs(ty.a[i], env).own
        Coll(c, py) == IF Hashable(ty.a[1])
                       THEN [own |-> c \o "<" \o Own(1) \o ">", bor |-> "&" \o c \o "<" \o Own(1) \o ">"]
                       ELSE Obj(py)
        AsList(x) == [own |-> "Vec<" \o x \o ">", bor |-> "&[" \o x \o "]"]
    IN
    CASE ty.t \in {"PyAny", "Unknown", "Union", "PyNone", "PyDelta", "PyEllipsis"} -> AnyOut
      [] ty.t = "Other" -> LET l == LocalOf(ty.s, env) IN IF l = "" THEN AnyOut ELSE Obj("@" \o l)
      [] ty.t = "PyBool" -> Same("bool")
      [] ty.t \in {"PyByteArray", "PyBytes"} -> [own |-> "Vec<u8>", bor |-> "&[u8]"]
      [] ty.t = "PyFloat" -> Same("f64")
      [] ty.t = "PyLong" -> Same("i64")
      [] ty.t = "PyString" -> [own |-> "String", bor |-> "&str"]
      [] ty.t = "Optional" -> Same("Option<" \o Own(1) \o ">")
      [] ty.t = "PyDict" ->
            IF Hashable(ty.a[1]) /\ ~Occurs(Own(2), "Any")
            THEN LET m == "HashMap<" \o Own(1) \o "," \o Own(2) \o ">" IN [own |-> m, bor |-> "&" \o m]
            ELSE [own |-> "PyDict", bor |-> "impl PyDict"]
      [] ty.t = "PyFrozenSet" -> Coll("HashSet", "PyFrozenSet")
      [] ty.t = "PySet" -> Coll("HashSet", "PySet")
      [] ty.t = "PyList" -> AsList(Own(1))
      [] ty.t = "PyTuple" ->
            IF Len(ty.a) < 2 \/ Len(ty.a) > 12 THEN [own |-> "PyTuple", bor |-> "impl PyTuple"]
            ELSE IF Len(ty.a) = 2 /\ ty.a[2].t = "PyEllipsis" THEN AsList(Own(1))
            ELSE Same("(" \o Join([i \in 1..Len(ty.a) |-> Own(i)], ",") \o ")")
      [] ty.t = "IpAddr" -> Same("IpAddr")
      [] ty.t = "Path" -> [own |-> "PathBuf", bor |-> "&Path"]
      [] OTHER -> Obj(ty.t)   \* PySlice, PyComplex, PyDate, PyFunction, PyModule, PyType, ...

OwnedRs(ty, env) == Rs(ty, env).own
BorrowedRs(ty, env) == Rs(ty, env).bor
================================================================================
