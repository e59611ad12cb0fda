-------------------------------- MODULE MC_Filters --------------------------------
(* Which names are bound: privacy, blocklists, reserved names, and their look-alikes, *)
(* for every kind of item and several configurations (C02).                          *)
EXTENDS Cases
CONSTANT Depth
Names0 == << "x", "_x", "x_", "__x", "__x__", "tests", "testing", "test", "builtins", "tester", "mytests", "_tests",
    "get_type", "obj", "py", "repr", "str", "py_", "strs", "target", "mytarget", "target_", "_target",
    "Tests", "Target", "type" >>
Config(name) ==
    CASE name = "default" -> Config0
      [] name = "private" -> [Config0 EXCEPT !.private = TRUE]
      [] name = "block" -> [Config0 EXCEPT !.block = {"target", "x"}]
      [] name = "open" -> [Config0 EXCEPT !.block = {}]
      [] name = "both" -> [Config0 EXCEPT !.private = TRUE, !.block = {"target", "_x", "run", "type"}]
Configs == << "default", "private", "block", "both", "open" >>
Rich == << Method("__init__", "inst", << Self >>), Method("__call__", "inst", << Self >>), Method("run", "inst", << Self >>) >>
Items(n) == << << Def(n, << P("a", 1) >>) >>, << Class(n, Rich) >>, << Val(n, "int") >>, << TVar(n) >>,
    << Class("K", << Method(n, "inst", << Self, P("p", 1) >>) >> \o Rich) >>,
    << Class("K", << Method(n, "static", << P("p", 1) >>) >>) >>,
    << Class("K", << Method(n, "class", << Cls, P("p", 1) >>) >>) >>,
    << Class("K", << PropRW(n, A0("int"), A0("str")), Attr("kept", "int") >>) >>,
    << Class("K", << Attr(n, "str") >>) >> >>
Files(n) == << (("pk." \o n) :> Mod(<< Def("f", << >>) >>)) @@ Skeleton,
               (("pk.sub." \o n) :> Pkg(<< Def("f", << >>) >>)) @@ (("pk.sub." \o n \o ".inner") :> Mod(<< Val("v", "int") >>)) @@ Skeleton >>
(* items that say that they are defined elsewhere *)
Places == << "other.place", "_hidden", "a._b.c", "typing", "typing.x", "typing_extensions", "a.__future__.b", "__future__",
    "tests", "a.tests", "builtins" >>
Foreign(of) == << << Of("foreign", "x", of), Def("y", << >>) >> >>
(* values of such classes, and what classes inherit from them *)
Values(of) == << Of("foreign", "_x", of), Of("inst", "v", "_x"), Of("inst", "_w", "_x") >>
BaseHomes == << "pk._base", "pk._mid.leaf", "pk.a._leaf", "pk.tests.base", "_top.leaf", "pk.base_", "pk.a.b_c" >>
Inherited(of) == LET w == [p \in (PathPrefixes(of) \ {"pk", "pk.a"}) |-> IF p = of THEN Mod(<< Class("B",
        << Method("__init__", "inst", << Self >>), Method("run", "inst", << Self >>), Method("st", "static", << P("a", 1) >>),
           Method("cl", "class", << Cls >>), PropRW("pr", A0("int"), A0("int")), Attr("at", "int"), Method("_no", "inst", << Self >>) >>) >>) ELSE Pkg(<< >>)]
    IN At([w @@ Skeleton EXCEPT !["pk.a"].pkg = TRUE], "pk.sub.b", << From(of, "B", "_B"), SubClass("K", "_B", << Method("own", "inst", << Self >>) >>), Of("inst", "v", "_B") >>)
MethodOf(of) == At(Skeleton, "pk", << Class("K", << Method("a", "inst", << Self >>) >>) >>)
Worlds == FlattenSeq(Map(LAMBDA n :
        (IF n = "__x__" THEN << >> ELSE Map(LAMBDA b : At(Skeleton, "pk.sub", b), Items(n))) \o Files(n), Names0))
    \o FlattenSeq(Map(LAMBDA of : Map(LAMBDA b : At(Skeleton, "pk.a", b), Foreign(of)), Places))
    \o FlattenSeq(Map(LAMBDA of : << At(Skeleton, "pk.a", Values(of)), At(Skeleton, "pk", Values(of)) >>, Places \o << "a._b", "_a.b", "pk._b", "a.b" >>))
    \o Map(Inherited, BaseHomes)
Used == IF Depth = 1 THEN << "default", "private", "both" >> ELSE Configs
CaseList == Numbered("filters", Cross(LAMBDA w, c : With(w, Config(c)), Worlds, Used))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

(* The rule, for names *)
Kept(n) == (cfg.private \/ ~StartsWith(n, "_")) /\ n \notin cfg.block
           /\ n \notin {"get_type", "obj", "py", "repr", "str"}
Names(f) == LET i == Positions(f, "|")[1]
                b == SubSeq(f, i + 1, Len(f))
                c == SubSeq(b, 1, IF HasChar(b, "(") THEN Positions(b, "(")[1] - 1
                                  ELSE IF HasChar(b, "|") THEN Positions(b, "|")[1] - 1 ELSE Len(b))
            IN IF StartsWith(f, "pyname") THEN {Leaf(DropPrefix(b, c \o "|"))} ELSE {Leaf(c)}
ItemFacts == {f \in facts : \E k \in {"mod|", "fn|", "pyname|", "type|"} : StartsWith(f, k)}
Accessor(n) == StartsWith(n, "get_") \/ StartsWith(n, "set_")
NothingFiltered == Done => \A f \in ItemFacts : \A n \in Names(f) : Kept(n) \/ Accessor(n)
(* ... and what is kept is there *)
Ours == {m \in DOMAIN W : Segs(m)[1] = "pk"}
AllKept == AllOk => \A m \in Ours : (\A i \in 1..Len(Segs(m)) : Kept(Segs(m)[i])) =>
    /\ ("mod|" \o m) \in facts
    /\ \A n \in FileNames(W[m]) : Kept(n) =>
        LET s == Binding(W[m], n)  at == m \o "." \o n IN
        CASE s.s = "def" -> HasFact("fn|" \o at \o "(") [] s.s = "class" -> ("struct|" \o at) \in facts
          [] s.s = "val" -> HasFact("fn|" \o at \o "()")
          [] s.s = "tvar" -> ("type|" \o at \o "|Any") \in facts [] OTHER -> TRUE
MembersKept == AllOk => \A m \in Ours : \A i \in 1..Len(W[m].ss) :
    LET s == W[m].ss[i] IN s.s = "class" /\ Kept(s.n) /\ Public(m) =>
        \A j \in 1..Len(s.body) : LET b == s.body[j] IN
            LET there == \E f \in facts : \E k \in {"static|", "method|"} :
                            StartsWith(f, k \o m \o "." \o s.n \o "::" \o Mangled(s.n, b.n) \o "(")
            IN IF b.n = "__init__" THEN HasFact("ctor|" \o m \o "." \o s.n \o "::new(")
               ELSE IF b.n = "__call__" THEN ("method|" \o m \o "." \o s.n \o "::call()") \in facts
               ELSE there = Kept(b.n)
(* members and values are judged by the module that defines them, too *)
KeptPath(p) == \A i \in 1..Len(Segs(p)) : (cfg.private \/ ~StartsWith(Segs(p)[i], "_")) /\ Segs(p)[i] \notin {"typing", "__future__"}
ByOrigin == AllOk => \A m \in Ours : \A i \in 1..Len(W[m].ss) : LET s == W[m].ss[i] IN
    /\ s.s = "inst" /\ Kept(s.n) /\ Public(m) => LET d == Binding(W[m], s.of) IN
        HasFact("fn|" \o m \o "." \o s.n \o "()") = KeptPath(d.of)
    /\ s.s = "class" /\ s.base # "" => LET of == Binding(W[m], s.base).of  at == m \o "." \o s.n \o "::"  k(n) == Kept(n) /\ KeptPath(of) IN
        /\ HasFact("method|" \o at \o "own(") = Kept("own")
        /\ HasFact("ctor|" \o at \o "new(")
        /\ HasFact("method|" \o at \o "run(") = k("run") /\ HasFact("static|" \o at \o "st(") = k("st") /\ HasFact("static|" \o at \o "cl(") = k("cl")
        /\ HasFact("method|" \o at \o "pr(") /\ HasFact("method|" \o at \o "at(")
=============================================================================
