--------------------------------- MODULE MC_Types ---------------------------------
(* Annotation terms, each spelled with builtin classes, with module typing, and as a  *)
(* string; as parameter, result and setter (C07).                                     *)
EXTENDS Cases
CONSTANT Depth
Term(a, xs) == AN(a, xs)
(* ---- terms by meaning: constructors of builtin classes, "|" ------------------- *)
Scalars == << "int", "str", "bool", "float", "bytes", "bytearray", "complex", "slice", "object", "range",
    "datetime.datetime", "datetime.date", "datetime.time", "datetime.timedelta", "datetime.tzinfo", "datetime.timezone",
    "pathlib.Path", "pathlib.PurePath", "os.PathLike", "ipaddress.IPv4Address", "ipaddress.IPv6Address", "ipaddress.IPv4Network",
    "decimal.Decimal", "fractions.Fraction", "enum.IntEnum", "collections.OrderedDict", "collections.deque",
    "collections.Counter",
    "types.FunctionType", "types.BuiltinFunctionType", "types.ModuleType", "types.CodeType", "types.FrameType", "types.TracebackType",
    "types.MethodType", "types.NoneType", "types.SimpleNamespace", "super", "memoryview" >>
Containers == << "list", "dict", "set", "frozenset", "tuple", "type" >>
Atoms == Map(A0, Scalars \o Containers \o << "None", "Any" >>)
G(c) == "generic:" \o c
Unary == << G("list"), G("set"), G("frozenset"), G("tuple"), G("type"), G("collections.abc.Sequence"), G("collections.abc.Iterable"),
    G("collections.abc.Iterator"), "?", "?l" >>
Binary == << G("dict"), G("tuple"), "|", G("collections.abc.Callable"), G("collections.abc.Mapping") >>
Mk1(c, x) == CASE c = "?" -> Term("|", << x, A0("None") >>) [] c = "?l" -> Term("|", << A0("None"), x >>) [] OTHER -> Term(c, << x >>)
Mk2(c, x, y) == Term(c, << x, y >>)
(* unions: of different members only, and not of unions *)
GoodMember(x) == x.a \notin {"|", "None", "Any"}
Good(t) == (t.a = "|") => /\ t.xs[1] # t.xs[2]
                          /\ \A i \in 1..2 : t.xs[i].a \notin {"|", "Any", "types.NoneType"}
                          /\ t # Term("|", << A0("None"), A0("None") >>)
Small == Map(A0, << "int", "str", "float", "bool", "bytes", "None", "Any", "list", "datetime.date", "pathlib.Path", "decimal.Decimal" >>)
Tiny == Map(A0, << "int", "str", "float", "Any" >>)
Tiny2 == Map(A0, << "int", "str" >>)
Filter(ts) == SelectSeq(ts, Good)
Level1 == Filter(Cross(Mk1, Unary, Atoms)) \o Filter(Cross3(Mk2, Binary, Small, Small))
    \o << Term(G("tuple"), << A0("int"), A0("...") >>), Term(G("tuple"), << A0("int"), A0("str"), A0("float") >>),
          Term(G("tuple"), [i \in 1..12 |-> A0("int")]), Term(G("tuple"), [i \in 1..13 |-> A0("int")]),
          Term("|", << A0("int"), A0("str"), A0("None") >>), Term("|", << A0("None"), A0("int"), A0("str") >>),
          Term("|", << A0("int"), A0("None"), A0("str") >>),
          Term(G("collections.abc.Callable"), << A0("int"), A0("str"), A0("None") >>), Term(G("collections.abc.Callable"), << A0("int") >>) >>
Inner1 == Filter(Cross(Mk1, Unary, Tiny)) \o Filter(Cross3(Mk2, Binary, Tiny2, Tiny2))
Level2 == Filter(Cross(Mk1, Unary, Inner1)) \o Filter(Cross3(Mk2, Binary, Inner1, << A0("str"), A0("None") >>))
          \o Filter(Cross3(Mk2, << G("dict"), G("tuple"), "|" >>, << A0("str"), A0("float") >>, Inner1))
Level3 == Filter(Cross(Mk1, Unary, Level2))
Terms == Atoms \o Level1 \o (IF Depth = 1 THEN SelectSeq(Level2, LAMBDA t : Len(t.xs) = 1 \/ t.xs[2].xs = << >>) ELSE Level2)
         \o (IF Depth >= 3 THEN Level3 ELSE << >>)

(* ---- the same with module typing; the string spelling ----------------------------- *)
InTyping == (G("list") :> "typing:List") @@ (G("dict") :> "typing:Dict") @@ (G("set") :> "typing:Set")
    @@ (G("frozenset") :> "typing:FrozenSet") @@ (G("tuple") :> "typing:Tuple") @@ (G("type") :> "typing:Type")
    @@ (G("collections.abc.Sequence") :> "typing:Sequence") @@ (G("collections.abc.Iterable") :> "typing:Iterable")
    @@ (G("collections.abc.Iterator") :> "typing:Iterator") @@ (G("collections.abc.Mapping") :> "typing:Mapping")
    @@ (G("collections.abc.Callable") :> "typing:Callable")
    @@ ("list" :> "typing:List") @@ ("dict" :> "typing:Dict") @@ ("set" :> "typing:Set")
    @@ ("frozenset" :> "typing:FrozenSet") @@ ("tuple" :> "typing:Tuple")
RECURSIVE Typed(_), Text(_)
Typed(t) ==
    LET xs == [i \in 1..Len(t.xs) |-> Typed(t.xs[i])] IN
    IF t.a = "|" THEN (IF Len(xs) = 2 /\ xs[2].a = "None" THEN Term("Optional", << xs[1] >>) ELSE Term("Union", xs))
    ELSE IF t.a \in DOMAIN InTyping THEN Term(InTyping[t.a], xs)
    ELSE Term(t.a, xs)
Text(t) ==
    LET xs == [i \in 1..Len(t.xs) |-> Text(t.xs[i])] IN
    CASE t.a = "|" -> Join(xs, " | ")
      [] t.a = G("collections.abc.Callable") ->
            "collections.abc.Callable[[" \o Join(SubSeq(xs, 1, Len(xs) - 1), ", ") \o "], " \o xs[Len(xs)] \o "]"
      [] t.a \in {"datetime.timedelta"} -> "timedelta"
      [] IsGeneric(t) -> GenericName(t) \o "[" \o Join(xs, ", ") \o "]"
      [] OTHER -> t.a
(* bool is a subclass of int: unions keep both; typing removes repetitions only *)

Fn(n, t) == DefT(n, << PT("p", 1, t) >>, t)
(* class objects that the string spelling does not reach, e.g. "super" *)
Three(i, t) == << Fn("l" \o ToString(i), t), Fn("t" \o ToString(i), Typed(t)), Fn("s" \o ToString(i), AS("lit", Text(t))) >>
ChunkSize == 12
Chunk(k) == LET lo == (k - 1) * ChunkSize + 1
                hi == IF k * ChunkSize > Len(Terms) THEN Len(Terms) ELSE k * ChunkSize
            IN FlattenSeq([j \in 1..(hi - lo + 1) |-> Three(lo + j - 1, Terms[lo + j - 1])])
Chunks == [k \in 1..((Len(Terms) + ChunkSize - 1) \div ChunkSize) |-> Chunk(k)]
(* what only module typing can say: metadata, literals, forward references, bare names *)
An(t) == Term("Annotated", << t >>)
Lit(s) == AS("lit", s)
Plains == Small \o << Term(G("list"), << A0("int") >>), Term("typing:List", << A0("int") >>), Term("typing:List", << A0("Any") >>),
    Term("typing:Dict", << A0("str"), A0("int") >>), Term(G("dict"), << A0("str"), A0("int") >>), Term("typing:Tuple", << A0("int"), A0("str") >>),
    Term("typing:Tuple", << A0("int"), A0("...") >>), Term("typing:Set", << A0("int") >>), Term("typing:FrozenSet", << A0("str") >>),
    Term("Optional", << A0("int") >>), Term("Union", << A0("int"), A0("str") >>), Term("|", << A0("int"), A0("None") >>),
    Term("typing:Type", << A0("int") >>), Term("typing:Sequence", << A0("str") >>), Term("typing:Callable", << A0("int"), A0("str") >>) >>
Forward == << Lit("int"), Lit("C"), Lit("pk.C"), Lit("list[int]"), Lit("None") >>
Metas == Map(An, Plains) \o Map(LAMBDA t : Term("typing:List", << An(t) >>), Plains) \o Map(LAMBDA t : Term(G("list"), << An(t) >>), Plains)
    \o Map(LAMBDA t : Term("Optional", << An(t) >>), SelectSeq(Plains, LAMBDA t : t.a \notin {"None", "Any", "Optional", "Union", "|"}))
    \o Map(LAMBDA t : Term("typing:Dict", << A0("str"), An(t) >>), Plains) \o Map(LAMBDA t : Term("typing:Tuple", << An(t), A0("int") >>), Plains)
    \o Map(LAMBDA t : Term("typing:List", << t >>), Forward) \o Map(LAMBDA t : Term("Optional", << t >>), Forward)
    \o Map(LAMBDA t : Term("typing:Dict", << A0("str"), t >>), Forward) \o Map(An, Forward) \o Map(LAMBDA t : Term(G("list"), << t >>), Forward)
    \o Map(LAMBDA t : Term("typing:Tuple", << t, t >>), Forward)
    \o << Term("Literal", << Lit("a") >>), Term("Literal", << Lit("a"), Lit("b") >>), Term("Optional", << Term("Literal", << Lit("a") >>) >>),
          Term("typing:List", << Term("Literal", << Lit("a"), Lit("b") >>) >>), Term("typing:Dict", << Term("Literal", << Lit("a") >>), A0("int") >>),
          An(Term("Literal", << Lit("a") >>)),
          \* None twice over
          Term("Optional", << An(A0("None")) >>), Term("Union", << An(A0("None")), A0("None") >>), Term("typing:List", << Term("Optional", << An(A0("None")) >>) >>),
          Term("Union", << An(A0("int")), A0("int") >>), Term("Union", << An(A0("None")), A0("int") >>), Term("Union", << An(A0("None")), A0("None"), A0("int") >>) >>
MetaChunks == [k \in 1..((Len(Metas) + 11) \div 12) |-> Map(LAMBDA i : Fn("m" \o ToString(i), Metas[i]),
    [j \in 1..((IF k * 12 > Len(Metas) THEN Len(Metas) ELSE k * 12) - (k - 1) * 12) |-> (k - 1) * 12 + j])]
World(ss) == "pk" :> Mod(ss)
(* other positions: setters, getters, keyword-only parameters, variadic ones, and the types of values *)
Spots(t) == << Class("K", << PropRW("x", t, t), PropRW("y", NoAnn, t), PropRW("z", t, NoAnn),
                             PropSet("u", NoAnn, << P("me", 0), PT("v", 0, t), PD("extra", 1, A0("bool")) >>), PropSet("va", t, << Self, PT("values", 2, t) >>),
                             PropSet("vb", t, << PT("all", 2, t) >>), PropSet("vc", t, << Self, PT("v", 1, t), PT("rest", 2, A0("bool")), PT("kw", 4, A0("bool")) >>),
                             MethodT("m", "inst", << Self, PT("a", 1, t), PT("b", 3, t) >>, t),
                             MethodT("s", "static", << PT("a", 0, t), PT("r", 2, t), PT("k", 4, t) >>, t),
                             MethodT("__init__", "inst", << Self, PT("a", 1, t) >>, NoAnn),
                             MethodT("__call__", "inst", << Self, PT("a", 1, t) >>, t) >>),
               DefT("f", << PT("a", 0, t), PT("b", 1, t), PT("r", 2, t), PT("c", 3, t), PT("k", 4, t) >>, t) >>
SpotTerms == Map(A0, << "int", "str", "bytes", "None", "Any", "list", "pathlib.Path", "datetime.date" >>)
    \o << Term(G("list"), << A0("int") >>), Term("|", << A0("int"), A0("None") >>), Term(G("dict"), << A0("str"), A0("int") >>),
          Typed(Term("|", << A0("str"), A0("None") >>)), AS("lit", "list[str]"), AS("lit", "int | None"), NoAnn >>
Values == << "int", "str", "bool", "float", "None", "list", "dict", "set", "frozenset", "tuple", "bytes", "bytearray",
    "complex", "object", "range", "slice", "datetime.datetime", "datetime.date", "datetime.timedelta", "pathlib.Path", "decimal.Decimal", "types.SimpleNamespace" >>
ValueSpots(e) == << Val("x", e), Class("K", << Attr("y", e) >>) >>
(* classes and type variables of the bound modules *)
LocalWorlds ==
    LET ref(n) == AS("ref", n)
        uses(n) == << Fn("f", ref(n)), Fn("g", Term(G("list"), << ref(n) >>)), Fn("h", Term("Optional", << ref(n) >>)),
                      Fn("u", Term("typing:Dict", << A0("str"), ref(n) >>)), Fn("v", AS("lit", "pk.a.C")),
                      Fn("w", AS("lit", "pk.a.C | None")), Fn("x", AS("lit", "list[pk.a.C]")), Fn("y", AS("lit", "nowhere.C")),
                      Fn("z", Term("Union", << ref(n), A0("None") >>)) >>
        c == << Class("C", << MethodT("m", "inst", << Self, PT("o", 1, AS("lit", "pk.a.C")) >>, AS("lit", "pk.a.C")) >>) >>
    IN << At(Skeleton, "pk.a", c \o uses("C")),
          At(At(Skeleton, "pk.a", c), "pk.sub.deep", << From("pk.a", "C", "C") >> \o uses("C")),
          At(At(Skeleton, "pk.a", c), "pk.sub.deep", << From("pk.a", "C", "D") >> \o uses("D")),
          At(At(Skeleton, "pk.a", c), "pk", << From("pk.a", "C", "C") >> \o uses("C")),
          At(At(Skeleton, "pk.a", c), "pk", << ImportAs("pk.a", "q"), Fn("v", AS("lit", "q.C")), Fn("w", AS("lit", "a.C")), Fn("x", AS("lit", "q.C[int]")) >>),
          At(At(Skeleton, "pk.a", c), "pk.sub", << From("pk", "a", "q"), Fn("v", AS("lit", "q.C")), Fn("w", AS("lit", "list[q.C]")) >>),
          At(Skeleton, "pk.a", << TVar("T"), Fn("f", ref("T")), Fn("g", Term("typing:List", << ref("T") >>)), Fn("v", AS("lit", "pk.a.T")) >>),
          At(Skeleton, "pk.sub", << SubClass("I", "int", << >>), SubClass("S", "str", << >>), SubClass("D", "dict", << >>), SubClass("L", "list", << >>),
               Fn("f", ref("I")), Fn("g", ref("S")), Fn("h", ref("D")), Fn("u", ref("L")), Fn("v", Term("Optional", << ref("I") >>)) >>),
          At(Skeleton, "pk.sub", << Class("type", << >>), Class("self", << >>), Fn("f", ref("type")), Fn("g", ref("self")),
               Fn("h", AS("lit", "pk.sub.type")), Fn("u", AS("lit", "pk.sub.self")) >>),
          At(Skeleton, "pk.sub", << Class("C", << >>), Of("inst", "one", "C"), Of("alias", "E", "C"), Fn("f", ref("E")) >>) >>
(* a class of one module in annotations of another, for every two places of a package whose names repeat *)
Twisted == ("pk" :> Pkg(<< >>)) @@ ("pk.a" :> Pkg(<< >>)) @@ ("pk.a.x" :> Pkg(<< >>)) @@ ("pk.b" :> Pkg(<< >>)) @@ ("pk.b.x" :> Pkg(<< >>))
    @@ ("pk.a.x.y" :> Mod(<< >>)) @@ ("pk.b.x.y" :> Mod(<< >>)) @@ ("pk.x" :> Pkg(<< >>)) @@ ("pk.x.pk" :> Pkg(<< >>)) @@ ("pk.x.pk.a" :> Mod(<< >>))
Spots2 == << "pk", "pk.a", "pk.a.x", "pk.b.x", "pk.a.x.y", "pk.b.x.y", "pk.x", "pk.x.pk", "pk.x.pk.a" >>
PlaceWorlds == FlattenSeq(Map(LAMBDA from : Map(LAMBDA to :
        At(At(Twisted, from, << Class("C", << MethodT("m", "inst", << Self, PT("o", 1, AS("lit", from \o ".C")) >>, AS("lit", from \o ".C")) >>) >>),
           to, (IF from = to THEN Twisted[from].ss \o << Class("C", << >>) >> ELSE << From(from, "C", "C") >>) \o
               << Fn("f", AS("ref", "C")), Fn("g", Term(G("list"), << AS("ref", "C") >>)), Fn("h", Term("Optional", << AS("ref", "C") >>)),
                  Class("D", << MethodT("m", "inst", << Self, PT("o", 1, AS("ref", "C")) >>, AS("ref", "C")), PropRW("p", AS("ref", "C"), AS("ref", "C")) >>) >>),
        Spots2), Spots2))
CaseList == Numbered("types", Map(LAMBDA ss : Plain(World(ss)), Chunks)
    \o Map(LAMBDA t : Plain(World(Spots(t))), SpotTerms \o << An(A0("int")), An(Term("typing:List", << A0("int") >>)), Term("Literal", << Lit("a") >>), Term("Optional", << Lit("int") >>) >>)
    \o Map(LAMBDA ss : Plain(World(ss)), MetaChunks)
    \o Map(LAMBDA e : Plain(World(ValueSpots(e))), Values)
    \o Map(Plain, LocalWorlds) \o Map(Plain, PlaceWorlds)
    \o Map(LAMBDA w : With(w, [Config0 EXCEPT !.classes = FALSE]), LocalWorlds)
    \o Map(LAMBDA w : With(w, [Config0 EXCEPT !.typevars = FALSE, !.imports = FALSE]), LocalWorlds))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

(* Spellings agree, as far as the name means the same thing in all of them *)
RECURSIVE Recognised(_)
Recognised(t) ==
    /\ t.a \in BuiltinNames \cup {"None", "Any", "|", "datetime.datetime", "datetime.date", "datetime.time", "datetime.timedelta", "datetime.tzinfo",
                 "pathlib.Path", "os.PathLike", "ipaddress.IPv4Address", "ipaddress.IPv6Address",
                 "object", "range", "decimal.Decimal", "fractions.Fraction"}
          \cup {G(c) : c \in BuiltinNames}
    /\ \A i \in 1..Len(t.xs) : Recognised(t.xs[i])
Number(s) == SubSeq(s.n, 2, Len(s.n))
RustOf(t) == Rs(FromView(View(t, << >>)), [x \in {} |-> ""])
Agree == Done => \A i \in 1..Len(W["pk"].ss) :
    LET s == W["pk"].ss[i] IN
    (s.s = "def" /\ Ch(s.n, 1) = "l" /\ Len(s.n) > 1 /\ Recognised(s.ps[1].t)) =>
        LET t == s.ps[1].t IN RustOf(t) = RustOf(Typed(t)) /\ RustOf(t) = RustOf(AS("lit", Text(t)))
(* What users are told (README): builtin scalars and their containers *)
Documented == << << "int", "i64", "i64" >>, << "str", "String", "&str" >>, << "bool", "bool", "bool" >>, << "float", "f64", "f64" >>,
    << "bytes", "Vec<u8>", "&[u8]" >>, << "Any", "Any", "impl Any" >>, << "object", "Any", "impl Any" >> >>
Table == Done => \A i \in 1..Len(Documented) :
    LET x == A0(Documented[i][1])  own == Documented[i][2] IN
    /\ RustOf(x) = [own |-> own, bor |-> Documented[i][3]]
    /\ RustOf(Term(G("list"), << x >>)) = [own |-> "Vec<" \o own \o ">", bor |-> "&[" \o own \o "]"]
    /\ RustOf(Term("|", << x, A0("None") >>)).own = "Option<" \o own \o ">" \/ x.a = "Any"
=============================================================================
