--------------------------------- MODULE MC_Params ---------------------------------
(* Every parameter list, on every kind of callable (C01, C20).                       *)
EXTENDS Cases
CONSTANT Depth
(* All well-formed orders of parameter kinds with at most n parameters *)
Ordered(w) == /\ \A i \in 1..(Len(w) - 1) : w[i] <= w[i + 1]
              /\ Cardinality({i \in 1..Len(w) : w[i] = 2}) <= 1
              /\ Cardinality({i \in 1..Len(w) : w[i] = 4}) <= 1
Kinds(n) == SelectSeq(SetToSeq({w \in UNION {[1..k -> 0..4] : k \in 0..n} : Ordered(w)}), LAMBDA w : TRUE)
Letters == << "a", "b", "c", "d", "e", "f" >>
(* with and without defaults (from some parameter on, Python requires it of positional ones) *)
List(w, d) == [i \in 1..Len(w) |-> [n |-> Letters[i], k |-> w[i], t |-> NoAnn,
                                     d |-> d /\ w[i] \in {0, 1, 3} /\ i * 2 > Len(w)]]
Lists == Cross(LAMBDA w, d : List(w, d), Kinds(IF Depth = 1 THEN 4 ELSE 6), << FALSE, TRUE >>)
(* unusual names *)
Odd == << << P("self", 1) >>, << P("self", 1), P("a", 1) >>, << P("a", 1), P("self", 1) >>, << P("a", 1), P("self", 3) >>,
    << P("self", 2) >>, << P("self", 3) >>, << P("self", 4) >>, << P("self", 0), P("b", 2) >>,
    << P("_", 1) >>, << P("_", 1), P("a", 1) >>, << P("a", 1), P("_", 2) >>, << P("a", 1), P("_", 4) >>, << P("a", 1), P("_", 3) >>,
    << P("a", 1), P("__", 2), P("_", 4) >>, << P("cls", 1), P("a", 1) >>, << P("args", 1), P("kwargs", 1) >>,
    << P("args", 2), P("kwargs", 4) >>, << P("py", 1), P("p_py", 1) >>, << P("value", 1), P("_x", 1) >>,
    << P("a", 2), P("self", 3) >>, << P("result", 1), P("slf", 1) >> >>
Valued == Map(LAMBDA e : << P("a", 1), PV("b", 1, NoAnn, e), PV("c", 3, NoAnn, e) >>, << "int", "str", "bool", "float", "None", "list", "dict", "set", "tuple", "bytes", "object", "pathlib.Path" >>)
Has(ps, n) == \E i \in 1..Len(ps) : ps[i].n = n
Fits(ps) == ps = << >> \/ ps[1].k \in {0, 1}
Prefixed(x, ps) == << IF Len(ps) > 0 /\ ps[1].k = 0 THEN P(x, 0) ELSE P(x, 1) >> \o ps
(* a bound method takes its object away: the first parameter must not have a keyword-only place *)
Callables(ps) ==
    << << Def("f", ps) >>, << Lambda("f", ps) >>, << Closure("f", ps) >>,
       << Class("K", << Method("m", "static", ps) >>) >> >>
    \o (IF Has(ps, "self") THEN << >> ELSE
        << << Class("K", << Method("m", "inst", Prefixed("self", ps)) >>) >>,
           << Class("K", << Method("__init__", "inst", Prefixed("self", ps)) >>) >>,
           << Class("K", << Method("__call__", "inst", Prefixed("self", ps)) >>) >>,
           << Class("B", << Method("m", "inst", Prefixed("self", ps)), Method("__init__", "inst", Prefixed("self", ps)) >>),
              SubClass("K", "B", << Attr("x", "int") >>) >> >>)
    \o (IF Has(ps, "cls") THEN << >> ELSE
        << << Class("K", << Method("m", "class", Prefixed("cls", ps)) >>) >>,
           << Class("B", << Method("m", "class", Prefixed("cls", ps)), Method("s", "static", ps) >>), SubClass("K", "B", << >>) >> >>)
    \o (IF ps = << >> \/ ~Fits(ps) THEN << >> ELSE
        << << Class("K", << Method("m", "inst", ps) >>) >> >>)
Bodies == FlattenSeq(Map(Callables, Lists \o Odd \o Valued))
CaseList == Numbered("params", Map(LAMBDA b : Plain(At(Skeleton, "pk.a", b)), Bodies))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

Named(ps) == Paren([i \in 1..Len(ps) |-> "p_" \o ps[i].n])
Ordinary(ps) == ~Has(ps, "self") /\ ~\E i \in 1..Len(ps) : ps[i].n = "_" /\ ps[i].k \in {2, 4}
Stmt == W["pk.a"].ss
Functions == AllOk /\ Stmt[1].s \in {"def", "lambda", "closure"} /\ Ordinary(Stmt[1].ps) =>
    ("fn|pk.a.f" \o Named(Stmt[1].ps)) \in facts
Methods == AllOk /\ Len(Stmt) = 1 /\ Stmt[1].s = "class" =>
    LET b == Stmt[1].body[1]
        rest == IF b.c = "static" THEN b.ps ELSE Tail(b.ps)
    IN Ordinary(rest) =>
        CASE b.n = "__init__" -> ("ctor|pk.a.K::new" \o Named(rest)) \in facts
          [] b.n = "__call__" -> ("method|pk.a.K::call" \o Named(rest)) \in facts
          [] b.c = "inst" -> ("method|pk.a.K::m" \o Named(rest)) \in facts
          [] OTHER -> ("static|pk.a.K::m" \o Named(rest)) \in facts
=============================================================================
