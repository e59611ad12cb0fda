--------------------------------- MODULE MC_Names ---------------------------------
(* Names that Rust cannot use as they are, for every kind of item (C18).            *)
EXTENDS Cases
CONSTANT Depth
Names0 == << "x", "type", "match", "fn", "mod", "loop", "crate", "self", "super", "Self", "a-b", "1x", "for", "Xx", "cafXE9X", "X4E2DXx", "XE9X-X3A9X", "a^b" >>
Names1 == Names0 \o << "use", "impl", "trait", "dyn", "box", "virtual", "move", "ref", "static", "struct", "where",
    "async", "await", "union", "auto", "gen", "a b", "a+b", "2", "new", "call", "py_", "args", "kwargs", "value", "_" >>
NameList == IF Depth = 1 THEN Names0 ELSE Names1
Body(n) == << Method(n, "inst", << Self, P("p", 1) >>) >>
Items(n) == << << Def(n, << P("a", 1) >>) >>, << Class(n, << Method("run", "inst", << Self >>) >>) >>,
    << Val(n, "int") >>, << TVar(n) >>, << TAlias(n) >>,
    << Class("K", << Method(n, "inst", << Self, P("p", 1) >>) >>) >>,
    << Class("K", << Method(n, "static", << P("p", 1) >>) >>) >>,
    << Class("K", << Method(n, "class", << Cls, P("p", 1) >>) >>) >>,
    << Class("K", << PropRW(n, A0("int"), A0("str")) >>) >>,
    << Class("K", << Attr(n, "str") >>) >>,
    << Class("K", << Nested(n) >>) >> >>
ParamItems(n) == IF n \in {"a-b", "XE9X-X3A9X", "a^b", "1x", "for", "a b", "a+b", "2", "async", "await"} THEN << >> ELSE
    << << Def("f", << P(n, 1), P("q", 1) >>) >>, << Def("f", << P("q", 1), P(n, 1) >>) >>, << Def("f", << P("q", 1), P(n, 3) >>) >>,
       << Class("K", << Method("m", "inst", << P(IF n = "self" THEN "me" ELSE "self", 1), P(n, 1) >>) >>) >> >>
MemberCases == FlattenSeq(Map(LAMBDA n : Cross(LAMBDA b, p : Plain(At(Skeleton, p, b)),
    Items(n) \o ParamItems(n), << "pk", "pk.sub.deep" >>), NameList))
(* modules *)
IsFile(n) == n \notin {"_"}
Files(n) == << (("pk." \o n) :> Mod(<< Def("f", << >>), Class("C", << >>) >>)) @@ Skeleton,
               (("pk." \o n) :> Pkg(<< Def("f", << >>), Val("v", "int") >>))
                 @@ (("pk." \o n \o ".in") :> Mod(<< DefT("g", << PT("c", 1, A0("int")) >>, A0("int")) >>)) @@ Skeleton >>
ModuleCases == FlattenSeq(Map(LAMBDA n : Map(Plain, Files(n)), SelectSeq(NameList, IsFile)))
(* two names that are close to each other *)
ClashCases == Map(LAMBDA b : Plain(At(Skeleton, "pk", b)),
    << << Def("x", << >>), Def("get_x", << P("a", 1) >>), Def("set_x", << P("b", 1) >>) >>,
       << Val("x", "int"), Def("set_x", << P("b", 1) >>) >>,
       << Val("x", "int"), Def("get_x", << P("b", 1) >>) >>,
       << Val("x", "int"), Val("set_x", "str") >>,
       << Val("x", "int"), Class("set_x", << >>) >>,
       << Val("type", "int"), Def("get_type_", << >>) >>,
       << Class("K", << Prop("x", A0("int")), Method("get_x", "inst", << Self >>) >>) >>,
       << Class("K", << PropRW("x", A0("int"), A0("int")), Method("set_x", "inst", << Self >>) >>) >>,
       << Class("K", << PropRW("x", A0("int"), A0("int")), Attr("set_x", "int"), Method("get_x", "static", << >>) >>) >>,
       << Class("K", << Method("__init__", "inst", << Self, P("a", 1) >>), Method("new", "static", << P("b", 1) >>) >>) >>,
       << Class("K", << Method("__init__", "inst", << Self, P("a", 1) >>), Method("new", "static", << P("b", 1) >>), Method("new1", "inst", << Self >>) >>) >>,
       << Class("K", << Method("__call__", "inst", << Self, P("a", 1) >>), Method("call", "inst", << Self, P("b", 1) >>) >>) >>,
       << Class("K", << Method("__call__", "inst", << Self, P("a", 1) >>), Attr("call", "int") >>) >>,
       << Class("K", << Method("__init__", "inst", << Self, P("a", 1) >>), Attr("new", "int") >>) >>,
       << Class("K", << Method("__init__", "inst", << Self, P("a", 1) >>), PropRW("new", A0("int"), A0("int")) >>) >>,
       << Class("K", << Attr("get_type", "int"), Method("str", "inst", << Self >>), Attr("x", "int") >>) >>,
       << Class("K", << Attr("type", "int"), Attr("match", "int") >>), Class("k", << >>), Def("_k", << >>) >>,
       << Class("x", << >>), Def("X", << >>), Val("xX", "int") >> >>)
ImportClashes == Cross(LAMBDA b, m : Plain(At(At(Skeleton, "pk.sub.deep", << Def("set_x", << P("b", 1) >>), Class("get_x", << >>), Val("vx", "int") >>), m, b)),
    << << Val("x", "int"), From("pk.sub.deep", "set_x", "set_x") >>, << Val("x", "int"), From("pk.sub.deep", "set_x", "x1"), Val("x1_", "int") >>,
       << Val("type", "int"), From("pk.sub.deep", "set_x", "get_type") >>, << Val("x", "int"), From("pk.sub.deep", "get_x", "get_x"), From("pk.sub.deep", "set_x", "set_x") >>,
       << Class("K", << PropRW("x", A0("int"), A0("int")) >>), From("pk.sub.deep", "set_x", "set_x") >>,
       << Class("K", << >>), From("pk.sub.deep", "get_x", "KMethods") >>, << Def("x", << >>), From("pk.sub.deep", "get_x", "x_") >> >>, << "pk", "pk.sub", "pk.a" >>)
CaseList == Numbered("names", ImportClashes \o MemberCases \o ModuleCases \o ClashCases)
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

(* A legal Rust identifier is the Rust name *)
Unchanged == AllOk => \A m \in DOMAIN W : Public(m) /\ PathHasRustName(m) /\ Requested(m) =>
    \A n \in FileNames(W[m]) : PlainName(n) =>
        LET s == Binding(W[m], n)  at == m \o "." \o n IN
        CASE s.s = "def" -> HasFact("fn|" \o at \o "(") [] s.s = "class" -> ("struct|" \o at) \in facts
          [] s.s = "val" -> HasFact("fn|" \o at \o "()")
          [] s.s = "tvar" -> ("type|" \o at \o "|Any") \in facts [] OTHER -> TRUE
(* No two items of a scope share a name *)
ItemName(f) == LET body == SubSeq(f, Positions(f, "|")[1] + 1, Len(f))
                   q == Positions(body, "(") IN
               IF q = << >> THEN body ELSE SubSeq(body, 1, q[1] - 1)
ValueItems == {f \in facts : \E k \in {"fn|", "ctor|", "static|", "method|"} : StartsWith(f, k)}
Distinct == Done => Cardinality({ItemName(f) : f \in ValueItems}) = Cardinality(ValueItems)
=============================================================================
