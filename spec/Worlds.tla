---------------------------------- MODULE Worlds ----------------------------------
(* Packages that several families share                                              *)
EXTENDS Cases
(* one that has everything *)
Ref == AS("ref", "C")
Term2(x) == AN("Optional", << x >>)
Body == << MethodT("__init__", "inst", << Self, PT("o", 1, Ref) >>, NoAnn), MethodT("m", "inst", << Self, PT("a", 1, A0("int")) >>, Ref),
    [b |-> "prop", n |-> "p", ret |-> Ref, doc |-> "Prop doc", set |-> TRUE, st |-> Ref, sdoc |-> "Setter doc"], Attr("K", "int"),
    [b |-> "prop", n |-> "q", ret |-> NoAnn, doc |-> "", set |-> TRUE, st |-> NoAnn, sdoc |-> "Only the setter has one"],
    [b |-> "def", n |-> "__call__", c |-> "inst", ps |-> << Self >>, ret |-> NoAnn, doc |-> "Call doc"],
    [b |-> "def", n |-> "s", c |-> "static", ps |-> << P("x", 1) >>, ret |-> NoAnn, doc |-> "Static doc"] >>
Members0(inner) == << [s |-> "class", n |-> "C", doc |-> "Class doc", base |-> "", body |-> << >>], [s |-> "class", n |-> "D", doc |-> "", base |-> "", body |-> inner],
    TVar("T"), [s |-> "def", n |-> "f", ps |-> << PT("c", 1, Ref), PT("t", 1, AS("ref", "T")), P("k", 3) >>, ret |-> Ref, doc |-> "Function doc"],
    DefT("g", << PT("c", 1, Term2(Ref)) >>, NoAnn), Val("v", "int"), Of("inst", "one", "C"), Lambda("lam", << >>) >>
Rich == ("pk" :> [pkg |-> TRUE, doc |-> "Package", ss |-> << From("pk.sub.deep", "C", "C"), From("pk.sub.deep", "f", "g"), Def("own", << >>), AllOf(<< "own", "C" >>) >>])
    @@ ("pk.sub" :> [pkg |-> TRUE, doc |-> "", ss |-> Members0(Body) \o << From("pk.sub.deep", "f", "h"), ImportAs("pk.sub.deep", "q"), AllOf(<< "C", "v", "f", "T" >>) >>])
    @@ ("pk.sub.deep" :> [pkg |-> FALSE, doc |-> "Deep", ss |-> Members0(<< Method("x", "class", << Cls >>) >>)])
    @@ ("pk.clash" :> [pkg |-> FALSE, doc |-> "", ss |-> << Val("x", "int"), Def("get_x", << >>), Def("set_x", << P("a", 1) >>), Val("call", "int"), AllOf(<< "x" >>),
            Class("K", << PropRW("y", A0("int"), A0("int")), Method("set_y", "inst", << Self >>) >>) >>])
(* unrelated packages, whose members have the same names *)
Noise == ("noise" :> Pkg(<< Class("C", << Method("m", "inst", << Self >>) >>), Def("f", << >>), TVar("T"), Val("v", "str"), From("noise.sub", "C", "D"), AllOf(<< "C", "sub" >>) >>))
    @@ ("noise.sub" :> Mod(<< Class("C", << >>), Def("own", << P("q", 1) >>), Def("get_x", << >>) >>))
    @@ ("pkk" :> Pkg(<< Def("f", << >>) >>)) @@ ("pkk.sub" :> Mod(<< Class("C", << >>), DefT("use", << PT("c", 1, AS("ref", "C")) >>, NoAnn) >>))
    @@ ("user" :> Mod(<< From("pk.sub", "C", "C"), Def("g", << >>) >>))
=============================================================================
