-------------------------------- MODULE MC_Imports --------------------------------
(* Every form of import, from every origin, into every module of a package, with and  *)
(* without a name that something else has (C08).                                      *)
EXTENDS Cases
CONSTANT Depth
Content == << Def("fa", << P("a", 1) >>), Class("Ca", << >>), Val("va", "int"), TVar("ta"), Class("_Cp", << >>), Of("inst", "ia", "Ca"),
    Closure("ca", << P("a", 1) >>), Lambda("la", << P("a", 1) >>), BoundM("ba"), Of("builtin", "bi", "len"), Of("partial", "pa", "fa"), Of("alias", "aa", "fa"),
    Class("partial", << >>), Of("inst", "ip", "partial"), TMade("tu", "union"), TMade("tn", "newtype"), Def("locals", << P("x", 1) >>) >>
Base0 == ("pk" :> Pkg(<< >>)) @@ ("pk.a" :> Mod(Content)) @@ ("pk.sub" :> Pkg(<< Def("fa", << >>), Def("sub", << P("s", 1) >>) >>))
    @@ ("pk.sub.deep" :> Mod(<< Def("fa", << P("d", 1) >>), Class("Cd", << Method("m", "inst", << Self >>) >>), Def("deep", << >>), Def("_p", << >>) >>))
    @@ ("pk.sub.b" :> Mod(<< Class("b", << >>), Val("fa", "str") >>))
    @@ ("pk._priv" :> Mod(<< Def("fp", << P("x", 1) >>), Class("Cp", << >>) >>))
    @@ ("other" :> Pkg(<< Def("fo", << >>) >>)) @@ ("other.m" :> Mod(<< Def("fm", << >>), Class("Cm", << >>) >>))
    @@ ("pkother" :> Mod(<< Def("fo", << >>) >>))
Origins == << << "pk.a", "fa" >>, << "pk.a", "Ca" >>, << "pk.a", "va" >>, << "pk.a", "ta" >>, << "pk.a", "_Cp" >>, << "pk.a", "ia" >>,
    << "pk.a", "ca" >>, << "pk.a", "la" >>, << "pk.a", "ba" >>, << "pk.a", "bi" >>, << "pk.a", "pa" >>, << "pk.a", "aa" >>, << "pk.a", "ip" >>,
    << "pk.a", "tu" >>, << "pk.a", "tn" >>, << "pk.a", "locals" >>,
    << "pk.sub", "fa" >>, << "pk.sub.deep", "fa" >>, << "pk.sub.deep", "Cd" >>, << "pk.sub.deep", "deep" >>, << "pk.sub.deep", "_p" >>,
    << "pk.sub.b", "b" >>, << "pk.sub.b", "fa" >>, << "pk._priv", "fp" >>, << "pk._priv", "Cp" >>,
    << "other", "fo" >>, << "other.m", "fm" >>, << "other.m", "Cm" >>, << "pkother", "fo" >>,
    << "pk", "a" >>, << "pk", "sub" >>, << "pk.sub", "deep" >>, << "pk.sub", "b" >>, << "other", "m" >>, << "pk.sub", "sub" >> >>
W0(t) == Base0[t].ss
Targets == << "pk", "pk.sub", "pk.a", "pk.sub.deep" >>
Aliases == << "same", "q", "_q", "type" >>
Alias(o, a) == IF a = "same" THEN o[2] ELSE a
(* conflicts whose outcome the engine does not define: the new name is that of another submodule *)
From1 == Cross3(LAMBDA t, o, a : At(Base0, t, W0(t) \o << From(o[1], o[2], Alias(o, a)) >>), Targets, Origins, Aliases)
Imp == Cross3(LAMBDA t, o, a : At(Base0, t, W0(t) \o << ImportAs(o, a) >>), Targets,
    << "pk", "pk.a", "pk.sub", "pk.sub.deep", "pk.sub.b", "pk._priv", "other", "other.m", "pkother" >>, << "", "q", "type" >>)
Stars == Cross(LAMBDA t, o : At(Base0, t, W0(t) \o << Star(o) >>), Targets,
    << "pk.a", "pk.sub.deep", "pk.sub", "other.m" >>)
Two == Cross3(LAMBDA t, o, p : At(At(Base0, t, W0(t) \o << From(o[1], o[2], o[2]), From(p[1], p[2], "q") >>), "other", << From("other.m", "fm", "fm") >>),
    << "pk", "pk.sub" >>, Origins, Origins)
(* chains: imported again from a module that imported it *)
Chain == Cross(LAMBDA o, a : At(At(Base0, "pk.sub", W0("pk.sub") \o << From(o[1], o[2], Alias(o, a)) >>), "pk", << From("pk.sub", Alias(o, a), "r") >>),
    SelectSeq(Origins, LAMBDA o : o[1] # "pk" /\ o[1] # "pk.sub"), << "same", "q" >>)
Rich0 == << Method("__init__", "inst", << Self, P("p", 1) >>), Method("m", "inst", << Self >>), Attr("at", "int") >>
(* shadowing: the import takes the name of a submodule *)
Shadow == << At(Base0, "pk", << From("pk.sub", "sub", "sub") >>),
    At(Base0, "pk.sub", W0("pk.sub") \o << From("pk.sub.deep", "deep", "deep") >>),
    At(Base0, "pk.sub", W0("pk.sub") \o << From("pk.sub.b", "b", "b") >>),
    At(Base0, "pk.sub", W0("pk.sub") \o << From("pk.sub.b", "b", "b"), From("pk.sub.deep", "deep", "deep") >>),
    At(At(Base0, "pk.sub.deep", Content), "pk.sub", << From("pk.sub.deep", "fa", "deep") >>),
    At(At(Base0, "pk.sub.deep", Content), "pk.sub", << From("pk.sub.deep", "Ca", "deep") >>),
    At(At(Base0, "pk.sub.deep", Content \o << Lambda("deep", << P("l", 1) >>) >>), "pk.sub", << From("pk.sub.deep", "Ca", "q") >>),
    At(At(Base0, "pk.sub.deep", << TVar("deep"), Def("own", << >>) >>), "pk.sub", << From("pk.sub.deep", "deep", "deep") >>),
    At(At(Base0, "pk.sub.deep", << Class("Cd", << >>), Of("inst", "deep", "Cd") >>), "pk.sub", << From("pk.sub.deep", "deep", "deep") >>),
    At(At(Base0, "pk.sub.deep", << Class("deep", Rich0) >>), "pk.sub", << From("pk.sub.deep", "deep", "deep"), DefT("u", << PT("a", 1, AS("ref", "deep")) >>, AS("ref", "deep")) >>),
    At(At(Base0, "pk.sub.deep", << TVar("deep") >>), "pk.sub", << From("pk.sub.deep", "deep", "deep"), DefT("u", << PT("a", 1, AS("ref", "deep")) >>, AS("ref", "deep")) >>),
    At(Base0, "pk.sub", << Class("deep", Rich0), Def("b", << >>) >>), At(Base0, "pk.sub", << TVar("deep"), Class("b", << >>) >>), At(Base0, "pk", << Class("sub", << >>), TVar("a") >>),
    At(Base0, "pk.sub", << Def("deep", << P("x", 1) >>) >>), At(Base0, "pk", << Def("a", << P("x", 1) >>), Val("sub", "int") >>) >>
(* shadowings in which the imported object does not live in the shadowed submodule *)
Submods(w, t) == {Leaf(p) : p \in {p \in DOMAIN w : Parent(p) = t}}
Odd(w) == \E t \in {"pk", "pk.sub"} : \E i \in 1..Len(w[t].ss) :
    LET s == w[t].ss[i] IN s.s = "from" /\ s.n \in Submods(w, t) /\ Dot(s.of, s.name) # Dot(t, s.n) /\ ~Under(s.of, Dot(t, s.n))
(* an import under a name that is no Rust identifier, not even a raw one, is left out *)
Unnamed == Cross3(LAMBDA t, o, a : At(Base0, t, W0(t) \o << From(o[1], o[2], a), From(o[1], o[2], "q") >>), << "pk", "pk.sub" >>,
    << Origins[1], Origins[2], Origins[7], Origins[19], Origins[24] >>, << "self", "Self", "crate", "super" >>)
Worlds == SelectSeq(From1 \o Unnamed \o Imp \o Stars \o Chain \o Shadow \o (IF Depth = 1 THEN << >> ELSE Two), LAMBDA w : ~Odd(w))
Asked == << << ByName("pk") >>, << ByName("pk"), ByName("other") >>, << ByName("pk.sub"), ByName("pk.a") >> >>
CaseList == Numbered("imports",
    Map(Plain, Worlds)
    \o (IF Depth = 1 THEN << >> ELSE Cross(LAMBDA w, c : Case("", w, Config0, c), Worlds, << Asked[2], Asked[3] >>))
    \o Map(LAMBDA w : Case("", w, [Config0 EXCEPT !.private = TRUE], Asked[1]), From1)
    \o Map(LAMBDA w : Case("", w, Config0, Asked[2]), Imp \o Stars \o Shadow)
    \o Map(LAMBDA w : Case("", w, Config0, Asked[3]), Shadow \o Imp \o SubSeq(From1, 1, 96)))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

Uses == FactsOf("use")
UseTarget(f) == LET p == Positions(f, "|") IN SubSeq(f, p[1] + 1, p[2] - 1)
UseOrigin(f) == LET p == Positions(f, "|") IN SubSeq(f, p[2] + 1, Len(f))
Bound0(p) == \/ ("mod|" \o p) \in facts \/ ("struct|" \o p) \in facts \/ ("type|" \o p \o "|Any") \in facts
           \/ HasFact("fn|" \o p \o "(") \/ \E f \in Uses : UseTarget(f) = p
(* No re-export dangles, and it points into the own tree *)
NoDangling == Done => \A f \in Uses : Bound0(UseOrigin(f)) /\ Root(UseOrigin(f)) = Root(UseTarget(f))
                                      /\ Under(UseOrigin(f), Parent(UseTarget(f)))
(* What a from-import of a function or class binds, where it is defined *)
ReExported == AllOk => \A m \in DOMAIN W : Public(m) /\ Requested(m) => \A i \in 1..Len(W[m].ss) :
    LET s == W[m].ss[i] IN
    (s.s = "from" /\ PlainName(s.n) /\ Binding(W[m], s.n) = s /\ s.of \in DOMAIN W /\ s.name \in FileNames(W[s.of]) /\ Public(s.of)
        /\ ~Private(s.name) /\ Requested(s.of) /\ Under(s.of, m) /\ Binding(W[s.of], s.name).s \in {"def", "class"} /\ m # s.of
        /\ Dot(m, s.n) \notin DOMAIN W /\ ("mod|" \o s.of) \in facts)
    => ("use|" \o m \o "." \o s.n \o "|" \o Dot(s.of, s.name)) \in facts
(* Nothing from elsewhere *)
OnlyOwn == Done => \A f \in Uses : \E m \in DOMAIN W : Parent(UseTarget(f)) = m
=============================================================================
