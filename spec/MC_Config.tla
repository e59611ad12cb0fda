--------------------------------- MODULE MC_Config ---------------------------------
(* Every combination of the category switches, on packages that have everything (C10). *)
EXTENDS Worlds
CONSTANT Depth
Lists == << << ByName("pk") >>, << ByName("pk.sub"), ByName("pk.clash") >> >>
Keys == << "traverse", "preludes", "imports", "classes", "typevars", "functions", "properties", "docs" >>
Off(K) == [k \in DOMAIN Config0 |-> IF k \in K THEN FALSE ELSE Config0[k]]
Subsets == SetToSeq(SUBSET Range(Keys))
(* what is lifted, imported, virtual, or refers to such things *)
Second == ("pk" :> Pkg(<< From("pk.a", "one", "uno"), From("pk.a", "C", "C"), From("pk.a", "T", "t"), From("pk.a", "f", "g"), From("pk.shadow", "shadow", "shadow"),
                DefT("h", << PT("a", 1, AS("ref", "C")), PT("b", 1, AN("Optional", << AS("ref", "t") >>)), PT("c", 1, AS("lit", "pk.a.T")), PT("d", 1, AS("lit", "pk.a.C | None")),
                        PT("e", 3, AS("lit", "dict[str, pk.a.T]")) >>, AS("ref", "shadow")), AllOf(<< "uno", "h", "shadow" >>) >>))
    @@ ("pk.a" :> Mod(<< Class("C", << Method("m", "inst", << Self >>) >>), Of("inst", "one", "C"), TVar("T"), Def("f", << >>),
            [s |-> "virt", n |-> "made", of |-> "pk.a.made", file |-> Mod(<< Def("inside", << >>), Val("w", "int") >>)] >>))
    @@ ("pk.shadow" :> Mod(<< Class("shadow", << Method("__init__", "inst", << Self >>), Attr("at", "int") >>) >>))
Lists2 == << << ByName("pk") >>, << ByName("pk.a") >>, << ByName("pk.a"), ByName("pk") >> >>
CaseList == Numbered("config", Cross(LAMBDA K, l : Case("", Rich, Off(K), l), Subsets, Lists) \o Cross(LAMBDA K, l : Case("", Second, Off(K), l), Subsets, Lists2))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

(* ---- what a switched-off category takes away ------------------------------------- *)
Kind(f) == SubSeq(f, 1, Positions(f, "|")[1] - 1)
Accessor(f) == LET n == DropPrefix(f, "fn|") IN Occurs(n, "_") 
Functions == {"lam", "f", "g", "own", "get_x"}
LeafOf(f) == LET b == SubSeq(f, Positions(f, "|")[1] + 1, Len(f)) IN Leaf(SubSeq(b, 1, Positions(b, "(")[1] - 1))
(* what could refer to something switched off is not there or refers to a plain object *)
NothingDangles == AllOk => \A f \in facts : Kind(f) = "use" => LET o == SubSeq(f, Positions(f, "|")[2] + 1, Len(f)) IN
    \E g \in facts : StartsWith(g, "struct|" \o o) \/ StartsWith(g, "type|" \o o) \/ StartsWith(g, "fn|" \o o \o "(") \/ g = "mod|" \o o
Switches0 == AllOk /\ W = Second =>
    /\ ~cfg.classes => \A f \in facts : Kind(f) \notin {"struct", "pyname", "ctor", "method", "static"}
    /\ ~cfg.typevars => \A f \in facts : Kind(f) # "type"
    /\ ~cfg.imports => \A f \in facts : Kind(f) # "use"
    /\ ~cfg.preludes => \A f \in facts : Kind(f) \notin {"prelude", "preludemod"}
    /\ ~cfg.functions => \A f \in facts : Kind(f) = "fn" => LeafOf(f) \in {"one", "set_one", "uno", "set_uno", "w", "set_w"}
    /\ ~cfg.properties => \A f \in facts : Kind(f) = "fn" => LeafOf(f) \in {"f", "h", "inside"}
    /\ ~cfg.traverse => \A f \in facts : ~Occurs(f, "pk.a.made") /\ (Len(case.calls) = 1 /\ case.calls[1].ps = << "pk" >> => f # "mod|pk.a")
    /\ cfg.traverse => ("mod|pk.a.made") \in facts /\ (cfg.functions => "fn|pk.a.made.inside()" \in facts)
    /\ cfg.classes => "struct|pk.a.C" \in facts \/ (~cfg.traverse /\ "mod|pk.a" \notin facts)
    /\ (cfg.properties /\ "mod|pk.a" \in facts) => "fn|pk.a.one()" \in facts
Switches == AllOk /\ W = Rich =>
    /\ ~cfg.classes => \A f \in facts : Kind(f) \notin {"struct", "pyname", "ctor", "method", "static"}
    /\ ~cfg.typevars => \A f \in facts : Kind(f) # "type"
    /\ ~cfg.imports => \A f \in facts : Kind(f) # "use"
    /\ ~cfg.preludes => \A f \in facts : Kind(f) \notin {"prelude", "preludemod"}
    /\ ~cfg.docs => \A f \in facts : Kind(f) # "doc"
    /\ ~cfg.functions => \A f \in facts : Kind(f) = "fn" => LeafOf(f) \notin Functions
    /\ ~cfg.properties => \A f \in facts : Kind(f) = "fn" => LeafOf(f) \in Functions \cup {"set_x"}
    /\ ~cfg.traverse => \A f \in facts : ~StartsWith(f, "mod|pk.sub.deep")
(* signatures refer to classes and type variables that are there, and to no others *)
Refers == AllOk /\ W = Second =>
    /\ Mentioned \subseteq {PathOf(f) : f \in {f \in facts : Kind(f) \in {"struct", "type"}}}
    /\ (cfg.functions /\ "mod|pk.a" \in facts /\ "fn|pk.h(p_a,p_b,p_c,p_d,p_e)" \in facts) =>
        /\ cfg.classes <=> "pk.a.C" \in Mentioned
        /\ cfg.typevars <=> "pk.a.T" \in Mentioned
(* ... and what it leaves: everything of the other categories (names and parameters) *)
Struct == {"struct|pk.sub.C", "struct|pk.sub.D", "ctor|pk.sub.D::new(p_o)", "method|pk.sub.D::m(p_a)", "static|pk.sub.D::s(p_x)"}
Props == {"method|pk.sub.D::p()", "method|pk.sub.D::set_p(p_value)", "method|pk.sub.D::K()"}
Stays == AllOk /\ W = Rich /\ (cfg.traverse \/ Len(case.calls) = 2) =>
    /\ cfg.classes => Struct \cup Props \subseteq facts
    /\ cfg.typevars => "type|pk.sub.T|Any" \in facts
    /\ cfg.functions => {"fn|pk.sub.f(p_c,p_t,p_k)", "fn|pk.sub.g(p_c)", "fn|pk.sub.lam()"} \subseteq facts
    /\ cfg.properties => {"fn|pk.sub.v()", "fn|pk.sub.set_v(p_value)", "fn|pk.sub.one()"} \subseteq facts
    /\ cfg.docs => (cfg.functions => "doc|fn|pk.sub.f| Function doc" \in facts) /\ (cfg.classes => "doc|struct|pk.sub.C| Class doc" \in facts)
    /\ cfg.functions => LET r == IF cfg.classes THEN "&@pk.sub.C" ELSE "impl Any"
                            t == IF cfg.typevars THEN "Any" ELSE "impl Any" IN
                        \E f \in facts : StartsWith(f, "sig|pk.sub.f(" \o r)
    /\ (cfg.preludes /\ cfg.classes) => "prelude|pk.sub|C" \in facts
    /\ (cfg.imports /\ cfg.functions /\ cfg.traverse) => "use|pk.sub.h|pk.sub.deep.f" \in facts
    /\ \A p \in {"pk.sub", "pk.clash"} : (cfg.traverse \/ Len(case.calls) = 2) => ("mod|" \o p) \in facts
=============================================================================
