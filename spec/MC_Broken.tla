-------------------------------- MODULE MC_Broken --------------------------------
(* Import failures of every kind at every set of positions of a package, and modules  *)
(* that put something else in their place (C22).                                      *)
EXTENDS Cases
CONSTANT Depth
Base0 == ("pk" :> Pkg(<< Def("top", << >>), Val("v", "int") >>)) @@ ("pk.a" :> Mod(<< Def("fa", << P("x", 1) >>) >>)) @@ ("pk.z" :> Mod(<< Class("Z", << >>) >>))
    @@ ("pk.sub" :> Pkg(<< Class("S", << >>) >>)) @@ ("pk.sub.deep" :> Pkg(<< Def("fd", << >>) >>)) @@ ("pk.sub.deep.leaf" :> Mod(<< Val("w", "str") >>))
    @@ ("pk.sub.b" :> Mod(<< DefT("g", << PT("s", 1, AS("lit", "pk.sub.S")) >>, NoAnn) >>)) @@ ("q" :> Mod(<< Def("fq", << >>) >>))
Kinds == << "raise", "exit", "syntax" >>
Positions0 == << "pk.a", "pk.z", "pk.sub", "pk.sub.deep", "pk.sub.deep.leaf", "pk.sub.b" >>
(* modules that something else takes the place of: an object, or another module *)
Shims == << Do("stub"), Shim("pk.a"), Shim("pk.z"), Shim("q"), Shim("pk.sub.b"), Shim("pk.sub.deep.leaf") >>
Places == << "pk.a", "pk.z", "pk.sub.b", "pk.sub.deep.leaf", "pk.sub", "pk.sub.deep", "q" >>
Replaced(w, m, k) == [w EXCEPT ![m].ss = @ \o << k >>]
Swapped == Cross(LAMBDA m, k : Replaced(Base0, m, k), Places, SelectSeq(Shims, LAMBDA k : k.s = "stub"))
    \o SelectSeq(Cross(LAMBDA m, k : Replaced(Base0, m, k), SelectSeq(Places, LAMBDA m : m \notin {"pk.sub", "pk.sub.deep"}), SelectSeq(Shims, LAMBDA k : k.s = "shim")),
                 LAMBDA w : w \notin {Replaced(Base0, k.of, k) : k \in {k \in Range(Shims) : k.s = "shim"}})
(* what is in the place of a module is imported from, and shadowed *)
ShimUsers == << << "q", From("pk.a", "fa", "fa") >>, << "pk", From("pk.a", "fa", "a") >>, << "pk", From("pk.a", "fa", "fa") >>, << "pk", From("pk.z", "Z", "z") >>, << "pk.sub", From("pk.z", "Z", "b") >>,
    << "pk.sub", From("pk.sub.b", "g", "b") >>, << "pk.sub", From("pk.sub.deep", "fd", "deep") >>, << "pk.sub", From("pk", "a", "aa") >>, << "pk", ImportAs("pk.sub.b", "bb") >>, << "pk", Star("pk.a") >>, << "q", Star("pk.z") >>,
    << "pk", From("pk", "z", "zz") >>, << "pk", Try("pk.sub.deep") >>, << "pk", From("q", "fq", "a") >> >>
Swapped1 == Cross(LAMBDA u, w : At(w, u[1], << u[2] >> \o w[u[1]].ss), ShimUsers, Swapped)
Swapped2 == Cross3(LAMBDA m, n, k : Replaced(Replaced(Base0, m, Do("stub")), n, k), << "pk.a", "pk.sub.deep" >>, << "pk.z", "pk.sub.b", "q" >>, << Do("stub"), Shim("pk.a"), Shim("pk.sub.deep.leaf") >>)
    \o Cross3(LAMBDA m, n, k : Replaced(Replaced(Base0, m, Shim("pk.z")), n, k), << "pk.a", "pk.sub.b" >>, << "pk.sub.deep.leaf", "q" >>, << Do("stub"), Do("raise"), Shim("pk.a"), Shim("pk.z") >>)
(* the documentation of a package cannot be read, or that of a submodule *)
NoDocs == Map(LAMBDA m : Replaced(Base0, m, Do("nodoc")), << "pk", "pk.sub", "pk.sub.deep", "pk.a" >>)
Break(w, m, k) == IF k = "syntax" THEN [w EXCEPT ![m].ss = << Do(k) >>] ELSE [w EXCEPT ![m].ss = @ \o << Do(k) >>]
RECURSIVE BreakAll(_, _, _)
BreakAll(w, ms, k) == IF ms = << >> THEN w ELSE BreakAll(Break(w, Head(ms), k), Tail(ms), k)
Sets == SelectSeq(SetToSeq(SUBSET Range(Positions0)), LAMBDA S : Cardinality(S) <= (IF Depth = 1 THEN 3 ELSE 6))
Broken1 == Cross(LAMBDA S, k : BreakAll(Base0, SetToSeq(S), k), Sets, Kinds)
(* two kinds at once; importing what is broken, from inside of the package *)
Users == << << "pk", Try("pk.a") >>, << "pk", Try("pk.sub.deep") >>, << "pk.sub", Try("pk.a") >>, << "pk.z", From("pk.a", "fa", "fa") >>, << "pk.sub.b", From("pk.sub.deep", "fd", "fd") >>,
    << "pk", From("pk.a", "fa", "fa") >>, << "pk.sub", From("pk.sub.deep.leaf", "w", "w") >>, << "pk.sub", ImportAs("pk.z", "zz") >>, << "pk", Try("nowhere") >>, << "pk.z", ImportAs("nowhere", "") >>,
    << "pk.sub", From("pk", "z", "z") >>, << "q", From("pk.sub.deep", "fd", "fd") >> >>
Users1 == Cross(LAMBDA u, w : At(w, u[1], << u[2] >> \o w[u[1]].ss), Users, Map(LAMBDA p : Break(Base0, p, "raise"), Positions0) \o << Base0 >>)
(* more than one kind *)
Mixed == Cross(LAMBDA p, q : IF p = q THEN Break(Break(Base0, "pk.a", "syntax"), p, "raise") ELSE Break(Break(Base0, p, "syntax"), q, "exit"), Positions0, Positions0)
Off == [Config0 EXCEPT !.traverse = FALSE]
Deps == [Config0 EXCEPT !.deps = TRUE]
SwappedLists == << << ByName("pk.a") >>, << ByName("pk.z"), ByName("pk") >>, << CallNames(<< "pk.sub.b", "pk.sub.deep.leaf" >>), ByName("q") >>, << CallModules(<< "pk.a", "pk.z" >>), ByName("pk.sub") >> >>
NoDocLists == << << ByName("pk.z") >>, << ByName("pk.sub.b") >>, << ByName("pk.sub.deep.leaf"), ByName("q") >>, << CallModules(<< "pk.z", "pk.sub.b" >>) >>,
    << ByName("q"), ByName("pk"), ByName("pk.sub.deep.leaf") >> >>
Lists == << << ByName("pk") >>, << ByName("pk"), ByName("q") >>, << ByName("q"), ByName("pk.sub.b"), ByName("pk.z") >>, << CallNames(<< "pk.sub", "q" >>) >>, << CallModules(<< "q", "pk.sub.deep" >>), ByName("q") >> >>
CaseList == Numbered("broken", Cross(LAMBDA w, l : Calls(w, l), Broken1, IF Depth = 1 THEN << Lists[1], Lists[3] >> ELSE Lists)
    \o Cross(LAMBDA w, l : Calls(w, l), Mixed \o Users1, << Lists[1], Lists[2], Lists[4] >>)
    \o Cross(LAMBDA w, l : Case("", w, Off, l), Broken1, << Lists[1], << CallNames(<< "pk", "pk.z" >>), ByName("pk.sub.deep.leaf") >> >>)
    \o Cross(LAMBDA w, l : Case("", w, Off, l), Users1, << Lists[1], Lists[3] >>)
    \o Cross(LAMBDA w, l : Calls(w, l), Swapped \o Swapped2, Lists \o SwappedLists)
    \o Cross(LAMBDA w, l : Calls(w, l), Swapped1, IF Depth = 1 THEN << Lists[2] >> ELSE Lists \o SwappedLists)
    \o Cross(LAMBDA w, l : Case("", w, Deps, l), Swapped1, << << ByName("q") >>, << ByName("pk.sub") >> >>)
    \o Cross(LAMBDA w, l : Case("", w, Off, l), Swapped, << Lists[1], Lists[3], Lists[4] >>)
    \o Cross(LAMBDA w, l : Calls(w, l), NoDocs, Lists \o NoDocLists))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

Has(m, kinds) == \E i \in 1..Len(W[m].ss) : W[m].ss[i].s \in kinds
IsBroken(m) == \E i \in 1..Len(W[m].ss) : W[m].ss[i].s \in {"raise", "exit", "syntax"}
(* the modules that running m runs as well (those in try statements may fail) *)
Needs(m) == Ancestors(m) \cup (IF m \notin DOMAIN W THEN {} ELSE
    {LET s == W[m].ss[i] IN IF s.s = "from" /\ Dot(s.of, s.name) \in DOMAIN W THEN Dot(s.of, s.name) ELSE s.of
        : i \in {i \in 1..Len(W[m].ss) : W[m].ss[i].s \in {"from", "import", "star", "shim"}}})
RECURSIVE Fixpoint(_)
Fixpoint(S) == LET T == S \cup UNION {Needs(m) : m \in S} IN IF T = S THEN S ELSE Fixpoint(T)
Runs(m) == Fixpoint({m})
(* imports of what is not there yet, because the module is in the place of one that imports it *)
Early == (\E m \in DOMAIN W : Has(m, {"shim"})) /\ \E m \in DOMAIN W : Has(m, {"from", "star", "import"})
Fine(m) == ~Early /\ \A x \in Runs(m) : x \in DOMAIN W /\ ~IsBroken(x)
RECURSIVE Opaque(_)
Opaque(m) == Has(m, {"stub"}) \/ \E i \in 1..Len(W[m].ss) : W[m].ss[i].s = "shim" /\ Opaque(W[m].ss[i].of)
Gone(m) == Has(m, {"stub", "shim"})
NoImports == \A m \in DOMAIN W : ~Has(m, {"from", "import", "try", "star", "shim"})
(* no import takes the name of a submodule *)
NoShadows == \A m \in DOMAIN W : \A i \in 1..Len(W[m].ss) : W[m].ss[i].s = "from" => Dot(m, W[m].ss[i].n) \notin DOMAIN W
Undocumented == \E m \in DOMAIN W : Has(m, {"nodoc"})
(* the modules asked for with a are those below it, unless they, or what is between, are not what they seem *)
Below(m, a) == cfg.traverse /\ Under(m, a) /\ \A x \in {m} \cup Ancestors(m) : Under(x, a) /\ x # a => ~Gone(x)
ItemOf(m) == CASE m = "pk" -> "fn|pk.top()" [] m = "pk.a" -> "fn|pk.a.fa(p_x)" [] m = "pk.z" -> "struct|pk.z.Z" [] m = "pk.sub" -> "struct|pk.sub.S"
    [] m = "pk.sub.deep" -> "fn|pk.sub.deep.fd()" [] m = "pk.sub.deep.leaf" -> "fn|pk.sub.deep.leaf.w()" [] m = "pk.sub.b" -> "fn|pk.sub.b.g(p_s)" [] OTHER -> "fn|q.fq()"
AddedOk == UNION {Range(case.calls[i].ps) : i \in {i \in 1..Len(case.calls) : outs[i] = "ok"}}
(* What can be imported is bound, and nothing of what cannot be *)
Survivors == Done /\ outs[Len(outs)] = "ok" /\ NoShadows /\ ~cfg.deps => \A m \in DOMAIN W :
    LET asked == \E a \in AddedOk : (m = a /\ ~Gone(m)) \/ (a \in DOMAIN W /\ ~Gone(a) /\ Below(m, a)) IN
    /\ (asked /\ Fine(m)) => ItemOf(m) \in facts
    /\ (IsBroken(m) \/ (NoImports /\ ~asked)) => ItemOf(m) \notin facts
(* and nothing of what an object takes the place of *)
Stubs == Done /\ ~cfg.deps /\ NoImports => \A m \in DOMAIN W : Has(m, {"stub"}) =>
    \A f \in facts : ~StartsWith(f, "mod|" \o m) \/ \E a \in AddedOk : Under(a, m)
(* A call fails exactly if one of its modules cannot be imported *)
Calls0 == Done => \A i \in 1..Len(case.calls) :
    ~Undocumented /\ (NoImports \/ \A p \in Range(case.calls[i].ps) : Fine(p)) => (outs[i] = "err") = (\E p \in Range(case.calls[i].ps) : ~Fine(p) \/ Opaque(p))
=============================================================================
