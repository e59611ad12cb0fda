--------------------------------- MODULE MC_Deps ---------------------------------
(* Imports from other packages, with and without generating dependencies (C17).       *)
EXTENDS Cases
CONSTANT Depth
Content == << Def("fa", << P("a", 1) >>), Class("Ca", << >>), Val("va", "int"), Class("_Cp", << >>) >>
Base0 == ("pk" :> Pkg(<< Def("own", << >>) >>)) @@ ("pk.a" :> Mod(Content)) @@ ("pk.sub" :> Pkg(<< >>)) @@ ("pk.sub.deep" :> Mod(<< Class("Cd", << >>) >>))
    @@ ("pk._priv" :> Mod(<< Def("fp", << >>) >>))
    @@ ("other" :> Pkg(<< Def("fo", << P("o", 1) >>), Class("Co", << >>), Val("vo", "str") >>)) @@ ("other.m" :> Mod(<< Def("fm", << >>), Class("Cm", << >>) >>))
    @@ ("other._hidden" :> Mod(<< Def("fh", << >>), Class("Ch", << >>) >>)) @@ ("other.n" :> Pkg(<< Def("fn1", << >>) >>)) @@ ("other.n.deep" :> Mod(<< Class("Cn", << >>) >>))
    @@ ("other.testing" :> Pkg(<< Def("fq", << >>), Class("Cq", << >>) >>)) @@ ("other.testing.inn" :> Mod(<< Def("fi", << >>) >>))
    @@ ("other.n._deep" :> Pkg(<< Def("fz", << >>) >>)) @@ ("other.n._deep.low" :> Mod(<< Class("Cl", << >>) >>)) @@ ("pk.tests" :> Mod(<< Def("fk", << >>) >>))
    @@ ("third" :> Pkg(<< Def("ft", << >>), From("third.x", "fx", "fx") >>)) @@ ("third.x" :> Mod(<< Def("fx", << >>) >>))
    @@ ("_under" :> Mod(<< Def("fu", << >>) >>)) @@ ("testing" :> Mod(<< Def("fblock", << >>) >>))
    @@ ("pkother" :> Pkg(<< Def("fo2", << >>) >>)) @@ ("pkother.m" :> Mod(<< Def("fm2", << >>) >>)) @@ ("p" :> Mod(<< Def("fo3", << >>) >>))
    @@ ("relay" :> Mod(<< From("third", "ft", "ft"), Def("fr", << >>) >>))
    @@ ("claims" :> Mod(<< [s |-> "foreign", n |-> "Cf", of |-> "other.m"], [s |-> "foreign", n |-> "Cq", of |-> "nowhere.at"], Def("fc", << >>) >>))
Origins == << << "other", "fo" >>, << "other", "Co" >>, << "other", "vo" >>, << "other.m", "fm" >>, << "other.m", "Cm" >>, << "other", "m" >>,
    << "other._hidden", "fh" >>, << "other._hidden", "Ch" >>, << "other.n", "fn1" >>, << "other.n.deep", "Cn" >>, << "other.n", "deep" >>,
    << "third", "ft" >>, << "third", "fx" >>, << "third.x", "fx" >>, << "_under", "fu" >>, << "testing", "fblock" >>, << "relay", "ft" >>, << "relay", "fr" >>,
    << "claims", "Cf" >>, << "claims", "Cq" >>, << "claims", "fc" >>, << "pk.a", "fa" >>, << "pk.a", "Ca" >>,
    << "pkother", "fo2" >>, << "pkother.m", "fm2" >>, << "p", "fo3" >>,
    << "other.testing", "fq" >>, << "other.testing", "Cq" >>, << "other.testing.inn", "fi" >>, << "other.n._deep", "fz" >>, << "other.n._deep.low", "Cl" >>, << "pk.tests", "fk" >> >>
Targets == << "pk", "pk.sub", "pk.sub.deep", "pk._priv" >>
Aliases == << "same", "q", "_q" >>
Alias(o, a) == IF a = "same" THEN o[2] ELSE a
W0(t) == Base0[t].ss
From1 == Cross3(LAMBDA t, o, a : At(Base0, t, W0(t) \o << From(o[1], o[2], Alias(o, a)) >>), Targets, Origins, Aliases)
Imp == Cross3(LAMBDA t, o, a : At(Base0, t, W0(t) \o << ImportAs(o, a) >>), Targets,
    << "other", "other.m", "other._hidden", "other.n.deep", "third", "third.x", "_under", "testing", "other.testing", "other.testing.inn", "other.n._deep.low", "relay", "claims", "pkother", "p" >>, << "", "q" >>)
Stars == Cross(LAMBDA t, o : At(Base0, t, W0(t) \o << Star(o) >>), Targets, << "other", "other.m", "third", "relay", "claims", "pkother", "p" >>)
Two == Cross3(LAMBDA t, o, p : At(At(Base0, t, W0(t) \o << From(o[1], o[2], o[2]) >>), "pk.a", Content \o << From(p[1], p[2], p[2]) >>), << "pk", "pk.sub.deep" >>,
    SubSeq(Origins, 1, 21), SubSeq(Origins, 1, 21))
On == [Config0 EXCEPT !.deps = TRUE]
Cfgs == << On, Config0 >>
More == << [On EXCEPT !.private = TRUE], [On EXCEPT !.block = {"other"}], [On EXCEPT !.block = {"m", "fo"}], [On EXCEPT !.imports = FALSE], [On EXCEPT !.functions = FALSE],
    [On EXCEPT !.traverse = FALSE] >>
Lists == << << ByName("pk"), ByName("other") >>, << ByName("pk.sub") >>, << ByName("pk.sub.deep"), ByName("third") >>, << CallNames(<< "pk.a", "pk" >>) >> >>
CaseList == Numbered("deps", Cross(LAMBDA c, w : With(w, c), Cfgs, From1 \o Imp \o Stars)
    \o Cross(LAMBDA c, w : With(w, c), More, SelectSeq(From1, LAMBDA w : w["pk"] # Base0["pk"]) \o Stars)
    \o Cross(LAMBDA l, w : Case("", w, On, l), Lists, SelectSeq(From1, LAMBDA w : w["pk.sub"] # Base0["pk.sub"] \/ w["pk.sub.deep"] # Base0["pk.sub.deep"]))
    \o (IF Depth = 1 THEN << >> ELSE Map(LAMBDA w : With(w, On), Two)))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

ModsOf == {DropPrefix(f, "mod|") : f \in FactsOf("mod")}
AddedRoots == {Root(a) : a \in Added}
(* With the switch off, nothing outside of what was asked for *)
OnlyRequested == Done /\ ~cfg.deps => \A m \in ModsOf : Root(m) \in AddedRoots
(* With it on, every module that something public is imported from; or rather defined in *)
Defined(of, name) == of \in DOMAIN W /\ \E i \in 1..Len(W[of].ss) :
    "n" \in DOMAIN W[of].ss[i] /\ W[of].ss[i].n = name /\ W[of].ss[i].s \in {"def", "class"}
Reached == AllOk /\ cfg.deps /\ ~cfg.private /\ cfg.traverse /\ "pk" \in Added => \A m \in DOMAIN W : (Public(m) /\ Requested(m)) => \A i \in 1..Len(W[m].ss) :
    LET s == W[m].ss[i] IN
    (s.s = "from" /\ PlainName(s.n) /\ Defined(s.of, s.name) /\ PlainName(s.name) /\ Public(s.of) /\ Root(s.of) \notin cfg.block)
    => s.of \in ModsOf
(* Filters apply to dependencies as well *)
Filtered == Done /\ ~cfg.private => \A m \in ModsOf : \A i \in 1..Len(Segs(m)) : ~Private(Segs(m)[i]) /\ Segs(m)[i] \notin cfg.block
(* Nothing beyond what can be reached by imports *)
Reachable(m) == \E p \in DOMAIN W : Requested(p) /\ \E i \in 1..Len(W[p].ss) :
    W[p].ss[i].s \in {"from", "star", "import"} /\ Root(W[p].ss[i].of) # "pk"
NothingElse == Done => \A m \in ModsOf : Root(m) \in AddedRoots \/ Reachable(m)
=============================================================================
