--------------------------------- MODULE MC_Access ---------------------------------
(* Every history of reads and writes of module variables, class attributes and       *)
(* properties, through the bindings and by Python itself (C05).                       *)
EXTENDS Runtime
CONSTANT Depth
IntT == A0("int")
TextT == A0("str")
AccessWorld == At(At(At(Skeleton,
    "pk", << Val("x", "int") >>),
    "pk.sub.deep", << Val("x", "str"), Val("y", "int") >>),
    "pk.a", << Val("x", "int"), Val("s", "str"), Val("f", "float"), Val("b", "bool"), Val("n", "None"), Val("l", "list"), Val("d", "dict"),
        Class("B", << LMethodHow("B", "__init__", "inst", << Self >>, "none"), Attr("ca", "int"), Attr("cb", "str"),
                      PropRW("p", IntT, IntT), PropRW("q", AN("Optional", << IntT >>), TextT),
                      PropSet("g", IntT, << P("me", 0), PT("v", 0, IntT), PD("more", 1, TextT) >>), PropSet("h", TextT, << Self, PT("vs", 2, TextT), PT("kw", 4, IntT) >>) >>),
        SubClass("K", "B", << Attr("cb", "str"), Attr("cc", "list"), PropRW("w", NoAnn, NoAnn), PropRW("o", AN("Optional", << TextT >>), AN("Optional", << TextT >>)) >>) >>)
Ints == << VInt("0"), VInt("-7") >>
Get2(m, n, us, v) == << SGet(m, n) >> \o Map(LAMBDA u : SSet(m, n, u), us) \o << SPoke(m, "", n, v) >>
Vars == << Get2("pk.a", "x", << VInt("5") >>, VInt("6")) \o << SGet("pk", "x"), SSet("pk", "x", VInt("7")) >>,
    Get2("pk.sub.deep", "x", << VStr("'t'"), VStr("''") >>, VNone) \o << SGet("pk.sub.deep", "y") >>,
    Get2("pk.a", "s", << VStr("'\\n\\'\"'") >>, VStr("'z'")) \o << SSet("pk.a", "x", VInt("9223372036854775807")), SGet("pk.a", "x") >>,
    Get2("pk.a", "f", << V("float", "0.1"), V("float", "inf") >>, V("float", "-0.0")) \o << SGet("pk.a", "b"), SSet("pk.a", "b", V("bool", "False")) >>,
    Get2("pk.a", "l", << VX("list", << >>), VX("list", << VX("list", << VNone >>) >>) >>, VX("list", << VInt("3"), VInt("4") >>)),
    Get2("pk.a", "d", << VX("dict", << VStr("'k'"), VNone >>) >>, VX("dict", << >>)) \o << SGet("pk.a", "l") >>,
    Get2("pk.a", "n", << VNone, VInt("1") >>, VStr("'v'")) >>
(* names that Rust spells differently *)
Spelled == << "type", "match", "fn", "impl", "dyn", "union", "gen" >>
SpelledWorld == At(Skeleton, "pk.a", Map(LAMBDA n : Val(n, "int"), Spelled) \o << Class("K", << LMethodHow("K", "__init__", "inst", << Self >>, "none"), Attr("move", "int"),
    PropRW("type", IntT, IntT), PropRW("loop", NoAnn, NoAnn), PropSet("where", TextT, << P("fn", 0), PT("use", 0, TextT) >>) >>) >>)
SpelledMenus == Map(LAMBDA n : << SGet("pk.a", n), SSet("pk.a", n, VInt("5")), SPoke("pk.a", "", n, VInt("6")) >>, Spelled)
    \o Map(LAMBDA n : << SNew("pk.a", "K", << >>), SObjGet("pk.a", "K", "move", 1), SObjSet("pk.a", "K", n[1], 1, n[2]), SObjGet("pk.a", "K", n[1], 1) >>,
        << << "type", VInt("3") >>, << "loop", VNone >>, << "where", VStr("'w'") >> >>)
SOG(n, i) == SObjGet("pk.a", "K", n, i)
SOS(n, i, v) == SObjSet("pk.a", "K", n, i, v)
NewK == SNew("pk.a", "K", << >>)
Attrs == << << NewK, SOG("p", 1), SOS("p", 1, VInt("3")), SOS("p", 2, VInt("4")), SOG("p", 2) >>,
    << NewK, SOG("ca", 1), SOG("cc", 1), SPoke("pk.a", "K", "ca", VInt("6")), SPoke("pk.a", "B", "ca", VInt("7")) >>,
    << NewK, SOG("cb", 1), SOG("cb", 2), SPoke("pk.a", "B", "cb", VStr("'u'")), SPoke("pk.a", "K", "cb", VStr("'v'")) >>,
    << NewK, SOG("w", 1), SOS("w", 1, VX("list", << >>)), SOS("w", 1, VNone), SOG("o", 1), SOS("o", 1, VStr("'w'")) >>,
    << NewK, SOG("o", 1), SOS("o", 1, VStr("''")), SOS("o", 1, VNone), SOS("p", 1, VInt("1")), SOG("p", 1) >>,
    << NewK, SOG("cc", 1), SOG("cc", 2), SPoke("pk.a", "K", "cc", VX("list", << >>)) >> >>
(* an instance of the base class, and a property whose setter has another type *)
Based == << << SNew("pk.a", "B", << >>), SObjGet("pk.a", "B", "cb", 1), SObjGet("pk.a", "B", "ca", 1), SPoke("pk.a", "B", "cb", VStr("'n'")), SPoke("pk.a", "K", "cb", VStr("'k'")) >>,
            << SNew("pk.a", "B", << >>), SObjSet("pk.a", "B", "q", 1, VStr("'text'")), SObjSet("pk.a", "B", "p", 1, VInt("2")),
               SObjGet("pk.a", "B", "p", 1) >>,
            << NewK, SOS("g", 1, VInt("3")), SOG("g", 1), SOS("h", 1, VStr("'h'")), SOG("h", 1), SOG("p", 1) >> >>
SceneList == Scenes2("access", Map(LAMBDA m : Free(AccessWorld, m, Depth), Vars \o Attrs \o Based)
    \o Map(LAMBDA m : Free(SpelledWorld, m, Depth), SpelledMenus))
Init == RStartOne(SceneList)
Spec == Init /\ [][RNext]_rvars
=============================================================================
