-------------------------------- MODULE MC_Histories --------------------------------
(* Every sequence of calls that add modules, up to a length (C09).                     *)
EXTENDS Cases
CONSTANT Depth   \* 1: up to 2 calls; 2: up to 3
TheWorld == ("pk" :> [pkg |-> TRUE, doc |-> "Package doc", ss |-> << Def("fpk", << >>), Def("gpk", << P("a", 1) >>), From("pk.sub.deep", "Cd", "Cd"), From("pk.sub.deep", "use", "used"),
            AllOf(<< "fpk", "gpk", "Cd" >>) >>])
    @@ ("pk.a" :> Mod(<< Def("fa", << P("x", 1) >>), Val("v", "int"), Val("u", "str"), TVar("A1"), TVar("A2"), Class("Ca", << Attr("k", "int"), Method("m", "static", << >>) >>), Class("Cb", << >>), AllOf(<< "fa", "Ca", "u" >>) >>))
    @@ ("pk.sub" :> [pkg |-> TRUE, doc |-> "Sub doc", ss |-> << Class("Cs", << Method("m", "inst", << Self >>) >>), TVar("T"), TVar("S"), Class("Ct", << >>), Def("fs", << >>), From("pk.sub.deep", "Cd", "d") >>])
    @@ ("pk.sub.deep" :> Mod(<< Class("Cd", << >>), DefT("use", << PT("c", 1, AS("lit", "pk.sub.Cs")) >>, AS("lit", "pk.sub.deep.Cd")) >>))
    @@ ("q" :> Mod(<< DefT("f", << PT("c", 1, AS("lit", "pk.sub.Cs")) >>, NoAnn), Val("w", "str") >>))
    @@ ("bomb" :> Pkg(<< Def("f", << >>), Bombed("B") >>)) @@ ("bomb.ok" :> Mod(<< Def("f", << >>) >>))
    @@ ("broken" :> Mod(<< Def("f", << >>), Do("raise") >>))
StrFile == Mod(<< Def("fs", << P("a", 1) >>), Class("Cz", << >>) >>)
AllCalls == << ByName("pk"), ByName("pk.sub"), ByName("pk.sub.deep"), ByName("pk.a"), ByName("q"), ByName("broken"), ByName("missing"), ByName("bomb"), CallNames(<< "bomb.ok", "bomb", "q" >>), CallModule("bomb"),
    ByName("pk.nothing"), CallNames(<< "pk.sub.deep", "q" >>), CallNames(<< "q", "missing" >>), CallNames(<< >>),
    CallModule("pk.sub"), CallModules(<< "pk.a", "pk.sub.deep" >>), CallModules(<< "pk", "pk.sub" >>), CallModules(<< "pk.a", "missing" >>),
    FromStrCall("newm", StrFile), FromStrCall("deepm.inner.x", StrFile) >>
Histories == SelectSeq(Words(AllCalls, IF Depth = 1 THEN 2 ELSE 3), LAMBDA w : TRUE)
(* source code for the same name twice is two modules: not a repetition *)
OnceStr(w) == \A i, j \in 1..Len(w) : (i # j /\ w[i].op = "str" /\ w[j].op = "str") => w[i].ps # w[j].ps
(* a module is asked for whose name a class, a type variable or something else of its parent has taken *)
Takers == << << Class("x", << Method("m", "inst", << Self >>) >>) >>, << TVar("x") >>, << From("pk.x", "x", "x") >>, << From("pk.x", "T", "x") >>,
    << From("pk.x", "f", "x") >>, << Def("x", << >>) >>, << Val("x", "int") >>, << Class("x", << >>), ImportAs("pk.x", "") >>,
    << Class("y", << >>) >>, << From("pk.x", "x", "y") >>, << From("pk", "x", "x") >>, << From("pk.x.z", "z", "x") >> >>
TakenWorld(ss) == ("pk" :> Pkg(<< Def("f", << >>) >> \o ss \o << Def("last", << PT("a", 1, AS("lit", "pk.x.x")), PT("b", 1, AS("lit", "pk.x")), PT("c", 1, AS("lit", "pk.x.z.z")) >>) >>))
    @@ ("pk.x" :> Pkg(<< Class("x", << Method("i", "inst", << P("me", 1), P("a", 1) >>), Method("c", "class", << P("k", 1), P("a", 1) >>), Method("s", "static", << P("a", 1) >>) >>), TVar("T"), Def("f", << >>) >>)) @@ ("pk.x.z" :> Mod(<< Class("z", << Method("i", "inst", << P("me", 1), P("a", 1) >>) >>), Def("h", << >>) >>))
TakenCalls == << ByName("pk"), ByName("pk.x"), ByName("pk.x.z"), CallNames(<< "pk", "pk.x.z" >>), CallModules(<< "pk.x", "pk" >>) >>
TakenCfgs == << Config0, [Config0 EXCEPT !.classes = FALSE], [Config0 EXCEPT !.typevars = FALSE], [Config0 EXCEPT !.traverse = FALSE], [Config0 EXCEPT !.deps = TRUE],
    [Config0 EXCEPT !.functions = FALSE], [Config0 EXCEPT !.imports = FALSE, !.preludes = FALSE] >>
(* packages that are directories only *)
NsWorld == ("ns" :> NsPkg) @@ ("ns.mod" :> Mod(<< Class("K", << >>), Def("f", << P("a", 1) >>) >>)) @@ ("ns.deep" :> NsPkg)
    @@ ("ns.deep.x" :> Mod(<< Class("C", << Method("m", "inst", << P("me", 1) >>) >>), DefT("u", << PT("k", 1, AS("lit", "ns.mod.K")), PT("c", 1, AS("lit", "ns.pkg.inn.y.Y")) >>, AS("lit", "ns.deep.x.C")) >>))
    @@ ("ns.pkg" :> Pkg(<< From("ns.deep.x", "C", "C"), ImportAs("ns.pkg.inn.y", "") >>)) @@ ("ns.pkg.inn" :> NsPkg) @@ ("ns.pkg.inn.y" :> Mod(<< Class("Y", << >>), Val("v", "int") >>))
    @@ ("ns.bad" :> NsPkg) @@ ("ns.bad.z" :> Mod(<< Do("raise") >>))
    @@ ("user" :> Mod(<< From("ns.deep.x", "C", "C"), From("ns.deep", "x", "x"), ImportAs("ns.pkg", "") >>))
NsNames == << "ns", "ns.deep", "ns.deep.x", "ns.pkg", "ns.pkg.inn", "ns.pkg.inn.y", "ns.mod", "ns.bad", "ns.bad.z", "user" >>
NsCases == Cross(LAMBDA p, q : Case("", NsWorld, Config0, IF p = q THEN << ByName(p) >> ELSE << ByName(p), ByName(q) >>), NsNames, NsNames)
    \o Cross(LAMBDA p, g : Case("", NsWorld, g, << ByName(p) >>), NsNames, << [Config0 EXCEPT !.deps = TRUE], [Config0 EXCEPT !.traverse = FALSE], [Config0 EXCEPT !.private = TRUE] >>)
    \o << Case("", NsWorld, Config0, << CallModules(<< "ns.deep", "user" >>) >>), Case("", NsWorld, Config0, << FromStrCall("ns.deep.made", StrFile), ByName("ns.deep.x") >>),
          Case("", NsWorld, Config0, << CallNames(<< "user", "ns.bad.z" >>), FromStrCall("ns.deep.made.more", StrFile) >>) >>
CaseList == Numbered("histories", Map(LAMBDA w : Case("", TheWorld, Config0, w), SelectSeq(SetToSeq(Range(Histories)), OnceStr))
    \o Map(LAMBDA w : Case("", TheWorld, [Config0 EXCEPT !.traverse = FALSE], w),
           SelectSeq(SetToSeq(Range(Words(AllCalls, 2))), OnceStr))
    \o FlattenSeq(Map(LAMBDA w : Map(LAMBDA g : Case("", TakenWorld(w), g, SubSeq(TakenCalls, 1, 2)), TakenCfgs)
                             \o Map(LAMBDA c : Case("", TakenWorld(w), Config0, << c >>), TakenCalls)
                             \o << Case("", TakenWorld(w), Config0, << TakenCalls[2], TakenCalls[1] >>) >>, Takers))
    \o NsCases)
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

(* ---- the history does not matter, only the set of modules that it added ---------- *)
Done1 == Done /\ W = TheWorld
Good(c) == \A i \in 1..Len(c.ps) : c.op = "str" \/ c.ps[i] \in DOMAIN TheWorld \ {"broken", "bomb"}
Set == UNION {Range(case.calls[i].ps) : i \in {i \in 1..Len(case.calls) : Good(case.calls[i])}}
Below(p) == IF cfg.traverse THEN {q \in DOMAIN TheWorld : Under(q, p)} ELSE {}
Covered == Set \cup UNION {Below(p) : p \in Set}
Tree == Covered \cup UNION {Ancestors(p) : p \in Covered}
Outcomes == Done1 => outs = [i \in 1..Len(case.calls) |-> IF Good(case.calls[i]) THEN "ok" ELSE "err"]
                            \o << IF Set = {} THEN "err" ELSE "ok" >>
Modules == Done1 => {f \in facts : StartsWith(f, "mod|")} = {"mod|" \o p : p \in IF Set = {} THEN {} ELSE Tree}
ItemsOf(p) == CASE p = "pk" -> {"fn|pk.fpk()", "fn|pk.gpk(p_a)"} [] p = "pk.a" -> {"type|pk.a.A1|Any", "type|pk.a.A2|Any", "struct|pk.a.Ca", "struct|pk.a.Cb", "fn|pk.a.u()", "fn|pk.a.fa(p_x)", "fn|pk.a.v()", "fn|pk.a.set_v(p_value)"}
    [] p = "pk.sub" -> {"struct|pk.sub.Cs", "method|pk.sub.Cs::m()", "type|pk.sub.T|Any", "type|pk.sub.S|Any", "struct|pk.sub.Ct", "fn|pk.sub.fs()"}
    [] p = "pk.sub.deep" -> {"struct|pk.sub.deep.Cd", "fn|pk.sub.deep.use(p_c)"}
    [] p = "q" -> {"fn|q.f(p_c)", "fn|q.w()", "fn|q.set_w(p_value)"}
    [] p \in {"newm", "deepm.inner.x"} -> {"fn|" \o p \o ".fs(p_a)", "struct|" \o p \o ".Cz", "embed|" \o p}
    [] p = "bomb.ok" -> {"fn|bomb.ok.f()"}
    [] OTHER -> {}
Items == Done1 => \A p \in DOMAIN TheWorld \cup {"newm", "deepm.inner.x"} :
    IF p \in Covered THEN ItemsOf(p) \subseteq facts ELSE ItemsOf(p) \cap facts = {}
(* cross references find a class wherever it was added *)
References == Done1 /\ "q" \in Covered =>
    ("sig|q.f(" \o (IF "pk.sub" \in Covered THEN "&@pk.sub.Cs" ELSE "impl Any") \o ")->Any") \in facts
Docs == Done1 /\ Set # {} => \A p \in {"pk", "pk.sub"} : p \in Tree =>
    \E f \in facts : StartsWith(f, "doc|mod|" \o p \o "|")
=============================================================================
