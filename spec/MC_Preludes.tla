-------------------------------- MODULE MC_Preludes --------------------------------
(* Every __all__ list over the names of a module and some that are not (C19).         *)
EXTENDS Cases
CONSTANT Depth
Items0 == << Def("f", << >>), Class("C", << >>), Val("v", "int"), TVar("T"), Def("_p", << >>), Def("type", << >>), From("pk.sub.deep", "Cd", "Cd"),
    From("other", "fo", "fo"), Of("inst", "one", "C"), Val("s", "str") >>
Listed == << "f", "C", "v", "T", "_p", "Cd", "fo", "sub", "one", "nowhere", "type", "py", "test" >>
World(l, all) == ("pk" :> Pkg(Items0 \o (IF l THEN << AllOf(all) >> ELSE << >>)))
    @@ ("pk.sub" :> Pkg(<< >>)) @@ ("pk.sub.deep" :> Mod(<< Class("Cd", << >>), Def("x", << >>), AllOf(all) >>)) @@ ("other" :> Mod(<< Def("fo", << >>) >>))
Subs == SelectSeq(SetToSeq(SUBSET Range(Listed)), LAMBDA S : Cardinality(S) <= (IF Depth = 1 THEN 2 ELSE 4))
Public0 == << "f", "C", "v", "T", "type", "Cd", "fo", "one", "s", "sub" >>
(* the package sees its submodule once that was imported *)
Perms == << Public0, << "sub" >> \o Public0, SubSeq(Public0, 1, 9), Public0 \o << "_p" >>, Public0 \o << "nowhere" >>, << "f", "f" >>, << "C", "f", "C" >> >>
Clashes == Map(LAMBDA b : At(Skeleton, "pk.a", b), << << Def("call", << >>), Def("z", << >>), AllOf(<< "z" >>) >>,
    << Def("call", << >>), Class("call1", << >>), Def("z", << >>), AllOf(<< "z" >>) >>,
    << Val("call", "int"), AllOf(<< "call" >>), Def("z", << >>) >>, << TVar("call"), Def("call1", << >>), Val("call2", "int"), AllOf(<< "call1" >>) >>,
    << Def("z", << >>), Class("K", << >>), Val("get_z", "int"), AllOf(<< "K" >>) >>, << Def("z", << >>) >>, << Def("z", << >>), AllOf(<< "z" >>) >>,
    << Def("z", << >>), AllOf(<< >>) >>, << >>, << AllOf(<< >>) >>, << Def("z", << >>), Def("test", << >>), AllOf(<< "z" >>) >>,
    << Def("z", << >>), Def("test", << >>), AllOf(<< "test", "z" >>) >>, << Def("z", << >>), Def("y", << >>), Def("test", << >>), AllOf(<< "test", "z" >>) >>,
    << Lambda("z", << >>), Class("y", << >>), AllOf(<< "z" >>) >>, << Class("z", << >>), Of("alias", "y", "z"), AllOf(<< "y" >>) >>,
    << Of("builtin", "z", "len"), Def("y", << >>), AllOf(<< "z", "y" >>), Def("x", << >>) >> >>)
    \o Map(LAMBDA b : At(At(Skeleton, "pk.sub.deep", << Class("call", << >>), Class("Cd", << >>), Def("fd", << >>), Val("vd", "int") >>), "pk.sub", b),
    << << From("pk.sub.deep", "call", "call"), Def("z", << >>), AllOf(<< "z" >>) >>, << From("pk.sub.deep", "Cd", "call"), Def("z", << >>), AllOf(<< "z" >>) >>,
       << From("pk.sub.deep", "fd", "call"), From("pk.sub.deep", "Cd", "call1"), Def("z", << >>), AllOf(<< "z" >>) >>,
       << From("pk.sub.deep", "call", "call"), Def("z", << >>), AllOf(<< "call" >>) >>,
       << From("pk.sub.deep", "Cd", "_Cd"), Of("inst", "v", "_Cd"), Def("z", << >>), AllOf(<< "v" >>) >>,
       << From("pk.sub.deep", "Cd", "Cd"), Of("inst", "v", "Cd"), Def("z", << >>), AllOf(<< "v", "Cd", "z" >>) >> >>)
    \o Map(LAMBDA b : At(At(Skeleton, "pk.sub.deep", << Class("call", << >>), Class("Cd", << >>) >>), "pk.a", b),
    << << From("pk.sub.deep", "call", "call"), Def("z", << >>), AllOf(<< "z" >>) >>,
       << From("pk.sub.deep", "Cd", "Cd"), Of("inst", "v", "Cd"), Def("z", << >>), AllOf(<< "v", "Cd" >>) >>,
       << From("pk.sub.deep", "Cd", "_Cd"), Of("inst", "v", "_Cd"), Def("z", << >>), AllOf(<< "v" >>) >> >>)
Cfgs == << Config0, [Config0 EXCEPT !.functions = FALSE], [Config0 EXCEPT !.classes = FALSE, !.typevars = FALSE], [Config0 EXCEPT !.deps = TRUE],
           [Config0 EXCEPT !.preludes = FALSE], [Config0 EXCEPT !.imports = FALSE], [Config0 EXCEPT !.properties = FALSE], [Config0 EXCEPT !.traverse = FALSE],
           [Config0 EXCEPT !.private = TRUE] >>
CaseList == Numbered("preludes", Map(LAMBDA S : Plain(World(TRUE, SetToSeq(S))), Subs)
    \o Map(LAMBDA l : Plain(World(TRUE, l)), Perms) \o Map(Plain, Clashes)
    \o Cross(LAMBDA w, c : With(w, c), Map(LAMBDA l : World(TRUE, l), Perms \o << << "f", "C", "v", "T" >> >>) \o Clashes, SubSeq(Cfgs, 2, 9)))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

(* ---- the rule --------------------------------------------------------------------- *)
AllNames(m) == IF \E i \in 1..Len(W[m].ss) : W[m].ss[i].s = "all"
               THEN Range((W[m].ss[CHOOSE i \in 1..Len(W[m].ss) : W[m].ss[i].s = "all"]).names) ELSE {}
OwnItem(m, n) ==   \* defined in the module itself, or one of its own modules
    /\ n \in FileNames(W[m])
    /\ LET s == Binding(W[m], n) IN
       \/ s.s \in {"def", "lambda"} /\ cfg.functions
       \/ s.s = "class" /\ cfg.classes
       \/ s.s = "alias" /\ FALSE
       \/ s.s = "tvar" /\ cfg.typevars
       \/ s.s = "inst" /\ cfg.properties
Prelude0(m) == {DropPrefix(f, "prelude|" \o m \o "|") : f \in {f \in facts : StartsWith(f, "prelude|" \o m \o "|")}}
Kept(n) == PlainName(n) \/ (cfg.private /\ StartsWith(n, "_"))
Complete0 == AllOk /\ cfg.preludes => \A m \in {"pk.a", "pk.sub", "pk.sub.deep"} \cap DOMAIN W : (m # "pk.sub" \/ W["pk.sub"].ss # << >>) /\ ("mod|" \o m) \in facts =>
    LET all == AllNames(m)
        public == {n \in FileNames(W[m]) : ~StartsWith(n, "_")}
        want == {n \in all : OwnItem(m, n) /\ HasRustName(n) /\ n \notin cfg.block}
    IN all # public => {n \in want : cfg.private \/ ~StartsWith(n, "_")} \subseteq Prelude0(m)
NoneIfEqual == Done => \A m \in {"pk.a", "pk.sub.deep"} \cap DOMAIN W :
    LET public == {n \in FileNames(W[m]) : ~StartsWith(n, "_")} IN
    AllNames(m) = public => Prelude0(m) = {}
(* whatever a prelude names is listed and bound; there is at most one, with a name of its own *)
Sound == Done => \A m \in DOMAIN W : \A n \in Prelude0(m) : n \in AllNames(m) /\
    (\E k \in {"fn|" \o m \o "." \o n \o "(", "struct|" \o m \o "." \o n, "type|" \o m \o "." \o n, "mod|" \o m \o "." \o n} : HasFact(k))
OneName == Done => \A m \in DOMAIN W : LET ps == {f \in facts : StartsWith(f, "preludemod|" \o m \o "|")} IN
    /\ Cardinality(ps) = (IF Prelude0(m) = {} THEN 0 ELSE 1)
    /\ \A f \in ps : LET n == DropPrefix(f, "preludemod|" \o m \o "|") IN n \notin FileNames(W[m])
        \/ ~\E k \in {"fn|" \o m \o "." \o n \o "(", "struct|" \o m \o "." \o n, "type|" \o m \o "." \o n, "mod|" \o m \o "." \o n, "use|" \o m \o "." \o n \o "|"} : HasFact(k)
=============================================================================
