-------------------------------- MODULE MC_Members --------------------------------
(* Every kind of module member, alone and in pairs, at every place of a package.    *)
EXTENDS Cases
AllKinds == << P("a", 0), P("b", 1), P("rest", 2), P("c", 3), P("kw", 4) >>
Stmts(x) == <<
    Def(x, << >>),
    Def(x, AllKinds),
    Def(x, << P("z", 1), P("a", 1), PD("m", 3, NoAnn) >>),
    Deco(Def(x, AllKinds), "wraps"), Deco(Def(x, << P("a", 1) >>), "async"), Deco(Def(x, << P("a", 1) >>), "context"), Deco(Def(x, << P("a", 1) >>), "dispatch"),
    Class(x, << >>),
    Class(x, << Method("__init__", "inst", << Self, P("p", 1) >>), Method("run", "inst", << Self, P("q", 1) >>),
               PropRW("width", A0("int"), A0("str")), Attr("KIND", "str") >>),
    Val(x, "int"), Val(x, "str"), Val(x, "None"), Val(x, "list"), Val(x, "dict"), Val(x, "object"),
    Val(x, "tuple"), Val(x, "pathlib.Path"), Val(x, "types.SimpleNamespace"), Val(x, "functools.partialmethod"),
    TMade(x, "union"), TMade(x, "dict"), TMade(x, "callable"), TMade(x, "newtype"), TMade(x, "paramspec"), TMade(x, "tuplevar"), TMade(x, "typing"),
    TVar(x), TAlias(x), Lambda(x, << P("a", 1), P("b", 1) >>), Closure(x, << P("a", 1) >>),
    Of("builtin", x, "len"), Of("builtin", x, "getattr"), BoundM(x), Of("foreign", x, "other.place") >>
Companions(x) == << Def(x, << P("k", 1) >>), Class(x, << >>), Val(x, "int"), TVar(x) >>
(* kinds that need another statement before them *)
Pairs == << << Def("f0", << P("a", 1), P("b", 3) >>), Of("partial", "x", "f0") >>,
            << Class("C0", << >>), Of("inst", "x", "C0") >>, << Class("partial", << Method("__call__", "inst", << Self, P("a", 1) >>) >>), Of("inst", "x", "partial") >>,
            << Class("TypeVar", << >>), Of("inst", "x", "TypeVar") >>, << Class("function", << >>), Of("inst", "x", "function") >>,
            << Class("module", << >>), Of("inst", "x", "module") >>, << Class("partialmethod", << >>), Of("inst", "partial", "partialmethod") >>,
            << Def("functools", << >>), Def("partial", << P("a", 1) >>), Of("partial", "x", "partial"), Of("alias", "y", "x") >>,
            << Def("f0", << >>), Of("partial", "partial", "f0") >>,
            << Def("f0", << >>), Of("alias", "x", "f0") >>,
            << Class("C0", << >>), Of("alias", "x", "C0") >>,
            << Val("v0", "int"), Of("alias", "x", "v0") >>,
            << Def("x", << P("a", 1) >>), Class("x", << >>) >>,
            << Class("x", << >>), Val("x", "int") >> >>
Places == << "pk", "pk.a", "pk.sub", "pk.sub.deep" >>
CONSTANT Depth   \* 1: single statements and special pairs; 2: all pairs
Singles == {<< s >> : s \in Range(Stmts("x"))}
Doubles == IF Depth < 2 THEN {<< s, t >> : s \in Range(Stmts("x")), t \in {Def("y", << P("k", 1) >>)}}
           ELSE {<< s, t >> : s \in Range(Stmts("x")), t \in Range(Stmts("y"))}
Bodies == SetToSeq(Singles \cup Doubles \cup Range(Pairs))
(* modules that have no file *)
Virtuals(p) == LET own == << Def("f", << P("a", 1) >>), Class("C", << >>), Val("v", "int") >> IN
    << << Virtual("virt", Dot(p, "virt"), own) >>,
       << Virtual("virt", Dot(p, "virt"), << >>), Def("x", << >>) >>,
       << Virtual("virt", Dot(p, "virt"), own \o << Virtual("inner", Dot(p, "virt.inner"), own) >>), Def("f", << >>) >>,
       << Virtual("virt", Dot(p, "virt"), own), Virtual("other", Dot(p, "other"), << Def("f", << P("k", 3) >>) >>), Class("C", << >>) >>,
       \* under a second name, and under a name that is not its own
       << Virtual("virt", Dot(p, "virt"), own), Of("alias", "again", "virt"), Def("y", << >>) >>,
       << Virtual("virt", "elsewhere", own), Def("y", << >>) >>,
       << Virtual("virt", "elsewhere.virt", own), Class("elsewhere", << >>) >>,
       << Virtual("virt", Dot(p, "extra"), own), Class("extra", << >>) >>,
       << Virtual("virt", "virt", own), Virtual("other", Dot(p, "other"), << Def("f", << P("k", 3) >>) >>), Of("alias", "third", "other") >> >>
CaseList == Numbered("members", Cross(LAMBDA b, p : Plain(At(Skeleton, p, b)), Bodies, Places)
    \o FlattenSeq(Map(LAMBDA p : Map(LAMBDA b : Plain(At(Skeleton, p, b)), Virtuals(p)), Places)))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

HasFunction(file, n) == \E i \in 1..Len(file.ss) : file.ss[i].s = "def" /\ file.ss[i].n = n
(* C01: what the file defines is bound where the file is *)
Complete == AllOk => \A m \in DOMAIN W : Public(m) /\ Requested(m) =>
    /\ ("mod|" \o m) \in facts
    /\ \A n \in FileNames(W[m]) : PlainName(n) =>
        LET s == Binding(W[m], n)
            at == m \o "." \o n
        IN CASE s.s \in {"def", "lambda", "closure", "builtin", "partial"} ->
                    HasFact("fn|" \o at \o "(")
             [] s.s = "class" -> ("struct|" \o at) \in facts /\ ("pyname|" \o at \o "|" \o at) \in facts
             [] s.s \in {"val", "inst"} -> HasFact("fn|" \o at \o "()") /\ HasFact("fn|" \o m \o ".set_" \o n \o "(p_value)")
             [] s.s = "tvar" \/ (s.s = "talias" /\ ("e" \notin DOMAIN s \/ s.e \notin {"typing", "callable"})) -> ("type|" \o at \o "|Any") \in facts
             [] s.s = "virt" /\ s.of = at -> ("mod|" \o at) \in facts
                    /\ (HasFunction(s.file, "f") => HasFact("fn|" \o at \o ".f("))
             [] OTHER -> TRUE
(* ... with its parameters, in order *)
Parameters == AllOk => \A m \in DOMAIN W : \A n \in FileNames(W[m]) :
    LET s == Binding(W[m], n) IN s.s \in {"def", "lambda", "closure"} =>
        ("fn|" \o m \o "." \o n \o Paren([i \in 1..Len(s.ps) |-> "p_" \o s.ps[i].n])) \in facts
=============================================================================
