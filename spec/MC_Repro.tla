-------------------------------- MODULE MC_Repro --------------------------------
(* Histories of unrelated work before, between and after the modules that matter, all  *)
(* of which give the same bindings for these; and generating touches no module (C16).  *)
EXTENDS Worlds
CONSTANT Depth
Small0 == ("pk" :> Pkg(<< Def("f", << P("a", 1) >>), Class("C", << >>), Val("v", "int") >>)) @@ ("pk.sub" :> Mod(<< Class("C", << >>), DefT("g", << PT("c", 1, AS("ref", "C")) >>, NoAnn), AllOf(<< "g" >>) >>))
(* every kind of object, so that nothing is touched by inspecting it *)
Touchy == ("pk" :> Pkg(<< Def("f", << P("a", 1) >>), Of("partial", "part", "f"), Of("builtin", "b", "len"), Lambda("lam", << >>), Closure("clo", << >>), BoundM("bm"),
        Class("C", << Method("__init__", "inst", << Self, P("a", 1) >>), Method("s", "static", << >>), Method("c", "class", << Cls >>), PropRW("p", A0("int"), A0("int")), Attr("K", "list"), Nested("N") >>),
        SubClass("D", "C", << >>), SubClass("I", "int", << >>), TVar("T"), TAlias("L"), Class("Z", << >>), Of("inst", "one", "Z"), Of("alias", "E", "C"), Val("l", "list"), Val("d", "dict"), ImportAs("pk.sub", "q") >>))
    @@ ("pk.sub" :> [pkg |-> FALSE, doc |-> "Doc", ss |-> << [s |-> "def", n |-> "g", ps |-> << >>, ret |-> NoAnn, doc |-> " doc `` \n x"], AllOf(<< >>) >>])
Bare == ("pk" :> Pkg(<< Class("C", << >>) >>)) @@ ("pk.sub" :> Mod(<< >>))
Worlds0 == << Rich, Small0, Touchy, Bare >>
Full(w) == w @@ Noise
NoiseMods == << "noise", "noise.sub", "pkk.sub", "user" >>
Pres == SelectSeq(Words(NoiseMods, 2), LAMBDA p : TRUE) \o << << "pkk.sub", "user", "noise" >>, << "pk", "pk.sub" >>, << "pk.sub", "noise" >> >>
One == << ByName("pk") >>
Orders == << One, << ByName("noise"), ByName("pk") >>, << ByName("pk"), ByName("noise") >>, << ByName("pk"), ByName("pk") >>, << ByName("pkk"), ByName("pk"), ByName("user") >>,
    << CallNames(<< "user", "pk", "pkk.sub" >>) >>, << ByName("nowhere"), ByName("pk") >>, << CallModules(<< "pk", "pkk" >>) >>, << FromStrCall("src", Mod(<< Class("C", << >>) >>)), ByName("pk") >> >>
Cfgs == << Config0, [Config0 EXCEPT !.deps = TRUE], [Config0 EXCEPT !.private = TRUE], [Config0 EXCEPT !.docs = FALSE], [Config0 EXCEPT !.block = {"f", "sub"}] >>
WithPre(w, p, c, l) == [Case("", Full(w), c, l) EXCEPT !.pre = p]
CaseList == Numbered("repro", Cross3(LAMBDA w, p, l : WithPre(w, p, Config0, l), Worlds0, << << >>, << "pk", "pk.sub" >> >>, Orders)
    \o Cross(LAMBDA w, p : WithPre(w, p, Config0, One), Worlds0, Pres)
    \o Cross3(LAMBDA w, c, p : WithPre(w, << >>, c, One), Worlds0, Cfgs, << << >>, << "user", "noise" >> >>)
    \o (IF Depth = 1 THEN << >> ELSE FlattenSeq(Cross3(LAMBDA w, p, l : Map(LAMBDA c : WithPre(w, p, c, l), Cfgs), Worlds0, Pres, Orders))))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

(* The bindings of pk are a function of its files and the configuration alone *)
Mods == {m \in DOMAIN W : Under(m, "pk")}
InOrder == SetToSortSeq(Mods, LAMBDA a, b : Len(a) < Len(b) \/ (Len(a) = Len(b) /\ a # b /\ Leaf(a) \in {"a", "clash", "deep", "sub"}))
RefState == ImportAll(W, Interp0, InOrder)
Seen == {m \in Mods : \A q \in PathPrefixes(m) : Allowed(cfg, Leaf(q), Parent(q))}
RefTree == [m \in Seen |-> ParseModule(cfg, ModuleView(W, RefState, m))]
OfPk(S) == {f \in S : LET b == SubSeq(f, Positions(f, "|")[1] + 1, Len(f)) IN
    LET c == IF StartsWith(f, "doc|") THEN SubSeq(b, Positions(b, "|")[1] + 1, Len(b)) ELSE b IN
    StartsWith(c, "pk.") \/ StartsWith(c, "pk|") \/ c = "pk"}
Function0 == (AllOk \/ (Done /\ "nowhere" \in Added)) /\ ~cfg.private => OfPk(facts) = OfPk(Facts(cfg, RefTree, {}))
(* No name of a loaded module is rebound or removed, none added but submodules *)
Untouched == [][\A m \in st.loaded \cap {m \in DOMAIN W : TRUE} :
    /\ m \in st'.loaded
    /\ \A n \in DOMAIN st.env[m] : n \in DOMAIN st'.env[m] /\ (st'.env[m][n] = st.env[m][n] \/ Dot(m, n) \in st'.loaded \ st.loaded)
    /\ \A n \in DOMAIN st'.env[m] \ DOMAIN st.env[m] : Dot(m, n) \in st'.loaded]_vars
=============================================================================
