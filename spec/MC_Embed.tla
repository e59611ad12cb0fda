--------------------------------- MODULE MC_Embed ---------------------------------
(* Bindings of source texts, used in an interpreter that cannot find any module until *)
(* its source has been embedded (C13).                                                *)
EXTENDS Runtime
CONSTANT Depth
Code(text) == [s |-> "code", text |-> text]
Escaped(text) == [s |-> "code", text |-> text, escaped |-> TRUE]
Basis == << LDef("f", << P("a", 1) >>), Val("x", "int"),
    Class("K", << LMethod("K", "__init__", "inst", << Self, P("a", 1) >>), LMethod("K", "m", "inst", << Self >>),
                  LMethod("K", "s", "static", << P("a", 1) >>) >>) >>
ModuleNames == << "solo", "pk", "pk.a", "deepm.inner.x", "type", "match.fn", "a-b", "1x", "self", "x y.z" >>
EmbedMenu(m) == << SEmbed(m), SFn(m, "f", << VInt("1") >>), SNew(m, "K", << VInt("2") >>), SMethod(m, "K", "m", 1, << >>), SStatic(m, "K", "s", << VInt("3") >>),
    SGet(m, "x"), SSet(m, "x", VInt("4")) >>
NameScenes == Map(LAMBDA m : Embedded(m :> Mod(Basis), << m >>, EmbedMenu(m), Depth), ModuleNames)
(* two modules *)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
Pairs == << << "solo", "other" >>, << "pk", "pk.a" >>, << "pk.a", "pk" >>, << "pk.a.b", "pk.c" >>, << "a.b.c", "a" >>, << "b.a", "a.b" >> >>
PairMenu(p) == << SEmbed(p[1]), SEmbed(p[2]), SFn(p[1], "f", << VInt("1") >>), SFn(p[2], "f", << VInt("2") >>), SSet(p[1], "x", VInt("3")), SGet(p[1], "x"),
    SGet(p[2], "x"), SNew(p[2], "K", << VInt("4") >>) >>
PairScenes == Map(LAMBDA p : Embedded((p[1] :> Mod(Basis)) @@ (p[2] :> Pkg(Basis)), p, PairMenu(p), Depth), Pairs)
(* texts: [ss, value of _t, rest] *)
T(ss, value) == [ss |-> ss, value |-> value, nl |-> "\n", tail |-> ""]
Texts == << T(<< Code("_t = 'a \"quoted\" b'") >>, "'a \"quoted\" b'"),
    T(<< Code("_t = '{} {0} {{x}} %s #q #(x)* $y'") >>, "'{} {0} {{x}} %s #q #(x)* $y'"),
    T(<< Code("_t = r'\\n \\\\ \"# r#\"'") >>, "'\\\\n \\\\\\\\ \"# r#\"'"),
    T(<< Code("_t = 'back\\\\slash \\t\\x00'") >>, "'back\\\\slash \\t\\x00'"),
    T(<< Code("_t = '''two\n  lines'''") >>, "'two\\n  lines'"),
    T(<< Escaped("_t = '\\u00e9\\u20ac\\U0001f600 \\u202e'") >>, "'\\xe9\\u20ac\\U0001f600 \\u202e'"),
    T(<< Escaped("_t = '\\t|\\x0c|\\x7f|\\x01'") >>, "'\\t|\\x0c|\\x7f|\\x01'"),
    T(<< Escaped("# \\u00e9 comment \\\\\n_t = 1 # \"\"\" ''' */ //") >>, "1"),
    T(<< Code("_t = '''x'''  \t  ") >>, "'x'"),
    T(<< Code("if True:\n\t_t = 2\n\n\n\n") >>, "2"),
    T(<< Code("\n\n  \n\t\n# comment\n_t = 7") >>, "7"),
    T(<< Escaped("\\x0c\n \n\\x0c_t = 8   \\x0c") >>, "8"),
    [T(<< Code("\n\n_t = 9") >>, "9") EXCEPT !.nl = "\r\n", !.tail = "\n\n"],
    [T(<< Code("_t = '''p\nq'''") >>, "'p\\nq'") EXCEPT !.nl = "\r\n"],
    [T(<< Code("_t = 3") >>, "3") EXCEPT !.tail = "# no newline at the end"],
    [T(<< Code("_t = 5") >>, "5") EXCEPT !.tail = "\n\n   \n\t\n"],
    T(<< Code("\"\"\"Documentation \" of ''' the module\"\"\"\n_t = __doc__") >>, "'Documentation \" of \\'\\'\\' the module'"),
    T(<< Code("_t = __name__ + '|' + __file__") >>, "'solo|solo/__init__.py'"),
    T(<< Code("_t = len('" \o Rep("0123456789", 300) \o "')") >>, "3000"),
    T(<< Code("from __future__ import annotations\n_t = 6") >>, "6"),
    T(<< Code("import json as _j\n_t = _j.dumps([1])") >>, "'[1]'"),
    T(<< Code("_t = \"\\\"\" \"\\'\"") >>, "'\"\\''"),
    T(<< Code("_t = [c for c in 'concat!(\"x\")']; _t = len(_t)") >>, "12") >>
TextScenes == Map(LAMBDA t : Embedded("solo" :> ([Mod(t.ss \o << LGlobal("text", "_t", t.value) >> \o Basis) EXCEPT !.pkg = FALSE] @@ [nl |-> t.nl, tail |-> t.tail]),
    << "solo" >>, << SEmbed("solo"), SFn("solo", "text", << >>), SGet("solo", "x"), SNew("solo", "K", << VInt("1") >>) >>, 2), Texts)
(* below a package that can be imported *)
BelowTexts == << << "wsgiref.extra", "from wsgiref.util import guess_scheme as _s\n_t = _s({})", "'http'" >>, << "json.extra", "import json.tool as _j\n_t = _j.__name__", "'json.tool'" >>,
    << "xml.dom.extra", "import xml.dom.minidom as _d\n_t = _d.__package__", "'xml.dom'" >> >>
BelowScenes == Map(LAMBDA t : Embedded(t[1] :> Mod(<< Code(t[2]), LGlobal("text", "_t", t[3]) >> \o Basis), << t[1] >>,
    << SEmbed(t[1]), SFn(t[1], "text", << >>), SFn(t[1], "f", << VInt("1") >>) >>, 2), BelowTexts)
(* no text at all, and text added under a name once more: the last one counts *)
Bare(t) == [Mod(<< >>) EXCEPT !.pkg = FALSE] @@ [nl |-> t[1], tail |-> t[2]]
BareScenes == Map(LAMBDA t : Embedded("solo" :> Bare(t), << "solo" >>, << SEmbed("solo") >>, 2), << << "\n", "" >>, << "\n", "\n" >>, << "\n", "# nothing" >>, << "\n", "pass" >> >>)
AgainScenes == Map(LAMBDA before : LET once == Embedded("solo" :> Mod(Basis), << "solo" >>, << SEmbed("solo"), SFn("solo", "f", << VInt("1") >>), SGet("solo", "x") >>, 3)
        IN [once EXCEPT !.calls = Map(LAMBDA b : FromStrCall("solo", Mod(b)), before) \o @],
    << << << >> >>, << << Val("y", "int") >> >> >>)
SceneList == Scenes2("embed", BelowScenes \o NameScenes \o PairScenes \o TextScenes \o BareScenes \o AgainScenes)
Init == RStartOne(SceneList)
Spec == Init /\ [][RNext]_rvars
(* A module works if and only if its source has been embedded *)
WorksOnceEmbedded == \A i \in 1..Len(hist) : hist[i].op.op \in Importing \ {"set", "get", "poke"} =>
    (StartsWith(hist[i].res, "ok ") <=> \E j \in 1..(i - 1) : hist[j].op.op = "embed" /\ hist[j].op.m = hist[i].op.m)
=============================================================================
