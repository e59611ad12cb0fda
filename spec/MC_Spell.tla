--------------------------------- MODULE MC_Spell ---------------------------------
(* Using items whose Python names Rust cannot write as they are (C18).               *)
EXTENDS Runtime
CONSTANT Depth
Names0 == << "x", "type", "match", "fn", "mod", "loop", "crate", "self", "super", "Self", "a-b", "1x", "for", "async", "union", "Xx",
    "a b", "2", "py_", "value", "args" >>
Names1 == Names0 \o << "use", "impl", "trait", "dyn", "box", "virtual", "move", "ref", "static", "struct", "where", "await", "auto", "gen", "try",
    "a+b", "kwargs", "yield", "abstract", "final", "macro", "typeof", "unsized", "priv", "become", "do", "override", "extern", "unsafe",
    "as", "break", "const", "continue", "else", "enum", "false", "true", "if", "in", "let", "mut", "pub", "return", "while", "raw", "safe",
    "a:b", "a/b", "x!", "?", "a,b", "$", "None", "True", "result", "Ok", "Err", "macro_rules", "dict", "list", "int" >>
NameList == IF Depth = 1 THEN Names0 ELSE Names1
(* keywords of Python cannot be parameters; the lists of such names *)
NoParam == {"a-b", "1x", "for", "async", "await", "a b", "2", "a+b", "yield", "try", "as", "break", "const-", "continue", "else", "if", "in", "return", "while",
    "a:b", "a/b", "x!", "?", "a,b", "$", "None", "True"}
IdentLike == NoParam \ {"for", "async", "await", "yield", "try", "as", "break", "continue", "else", "if", "in", "return", "while", "None", "True"}
Init0(c) == LMethodHow(c, "__init__", "inst", << Self, P("a", 1) >>, "none")
One == << VInt("1") >>
OfModule(n) == Scene(At(Skeleton, "pk.a", << LDef(n, << P("a", 1) >>), Val("other", "int"),
        Class("K", << Init0("K"), LMethod("K", n, "inst", << Self, P("a", 1) >>) >>),
        Class("S", << Init0("S"), LMethod("S", n, "static", << P("a", 1) >>) >>),
        Class("C", << Init0("C"), LMethod("C", n, "class", << Cls, P("a", 1) >>) >>),
        Class("R", << Init0("R"), PropRW(n, A0("int"), A0("int")) >>),
        Class("A", << Init0("A"), Attr(n, "str") >>) >>),
    << SFn("pk.a", n, One), SNew("pk.a", "K", One), SMethod("pk.a", "K", n, 1, One), SStatic("pk.a", "S", n, One), SStatic("pk.a", "C", n, One),
       SNew("pk.a", "R", One), SObjSet("pk.a", "R", n, 2, VInt("7")), SObjGet("pk.a", "R", n, 2), SNew("pk.a", "A", One), SObjGet("pk.a", "A", n, 3),
       SPoke("pk.a", "A", n, VStr("'p'")), SObjGet("pk.a", "A", n, 3) >>)
OfValue(n) == Scene(At(Skeleton, "pk.sub.deep", << Val(n, "int"), LDef("f", << P("a", 1) >>) >>),
    << SGet("pk.sub.deep", n), SSet("pk.sub.deep", n, VInt("5")), SGet("pk.sub.deep", n), SPoke("pk.sub.deep", "", n, VInt("6")), SGet("pk.sub.deep", n),
       SFn("pk.sub.deep", "f", One) >>)
OfClass(n) == Scene(At(Skeleton, "pk.sub.deep", << Class(n, << Init0(n), LMethod(n, "m", "inst", << Self >>), LMethod(n, "s", "static", << P("a", 1) >>) >>) >>),
    << SStatic("pk.sub.deep", n, "s", One), SNew("pk.sub.deep", n, One), SMethod("pk.sub.deep", n, "m", 1, << >>) >>)
OfFile(n) == Scene(("pk." \o n :> Pkg(<< LDef("f", << P("a", 1) >>), Val("v", "int"), Class("K", << Init0("K") >>) >>))
        @@ ("pk." \o n \o ".inner" :> Mod(<< LDef(n, << P("a", 1) >>) >>)) @@ Skeleton,
    << SFn("pk." \o n, "f", One), SGet("pk." \o n, "v"), SSet("pk." \o n, "v", VInt("3")), SGet("pk." \o n, "v"), SNew("pk." \o n, "K", One),
       SFn("pk." \o n \o ".inner", n, One) >>)
OfParam(n) == LET ps == << P("q", 0), P(n, 1) >>  ks == << P("q", 1), P(n, 3) >> IN
    Scene(At(Skeleton, "pk.a", << LDef("f", << P("q", 1), P(n, 1) >>), LDef("g", ks),
        Class("K", << LMethodHow("K", "__init__", "inst", << P(IF n = "self" THEN "me" ELSE "self", 1), P("q", 1), P(n, 1) >>, "none"),
                     LMethod("K", "m", "inst", << P(IF n = "self" THEN "me" ELSE "self", 1) >> \o ks),
                     LMethod("K", "s", "static", << P("q", 1), P(n, 1) >>) >>) >>),
    LET v == << VInt("1"), VStr("'two'") >> IN
    << SFn("pk.a", "f", v), SFn("pk.a", "g", v), SNew("pk.a", "K", v), SMethod("pk.a", "K", "m", 1, v), SStatic("pk.a", "K", "s", v) >>)
Slashed == {"a/b"}
SceneList == Scenes2("spell", FlattenSeq(Map(LAMBDA n : << OfModule(n), OfValue(n), OfClass(n) >>
    \o (IF n \in Slashed THEN << >> ELSE << OfFile(n) >>)
    \o (IF n \in NoParam \cup {"self"} THEN << >> ELSE << OfParam(n) >>), NameList)))
Init == RStartOne(SceneList)
Spec == Init /\ [][RNext]_rvars
=============================================================================
