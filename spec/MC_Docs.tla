---------------------------------- MODULE MC_Docs ----------------------------------
(* Docstrings of every shape on every kind of item (C15).                            *)
EXTENDS Cases
CONSTANT Depth
Pieces == << "a", " ", "\n", "`", "/", "b c" >>
Texts == << "One line", " padded  line ", "Two\nlines", "Two\n\nparagraphs", "\nleading", "trailing\n", "trailing\n\n\n", "tab\tinside\t\ttwice",
    "``code`` and `x`", "```\nfence\n```", "ends with /", "ends with //", "slash /\n", "a/b", "/", "//", "  deep\n    indented\n  text", "x", " ", "\n", "\n\n",
    "no", "a\n \n b", "quote \" and ' and \\ back", "{braces} #hash [x](y)", "a -- b ; c", "  \n  first\n\n  second  \n  ",
    "`a``b```c", "a\t\nb", "one\ntwo\nthree\nfour", "r\"#x\"#", "*/ end", "/* begin", "// comment",
    "None of these", "None\n", " None", "not None", "NONE", "None\nat all", "* star", "** two", " * starred\n * list", "- a\n- b", "= x", "# h", "> q", "#[doc]", "!inner", "/// three",
    ":param a: the a\n:type a: int\n:return: none", "Args:\n    a: first\n        more\n    b: second", "1. one\n2. two", "cafXE9X ^ X4E2DX", "a\\nb", "\"\"\"", "'''", "``", "```", "a``", "```python\n>>> f()\n```\n",
    "end``\n", "/ start", "a /b/ c/", "a \n/\n", "  /  /", "/* c */", "*/", "\n \n", "`a` ``b`` ```c```", "a \t b", "x\n\n\n\ny", "//a", "a//b", "\t", "(`a`)", "a\n```",
    "A sentence. /", "It ends... //", "a; /\n", "(b) /", "A sentence.", "Two.\nSentences.", "wait...", "really?!", "back\\", "back\\\\", "a\\\nb\\", "\n\nbelow", "\n\n\nbelow\nmore", "\n \n \nbelow", "a,", "(a)", "-", ".", "\\", "0", "a:\n\n  b::\n\n    c" >>
Grown == Map(LAMBDA w : Join(w, ""), SelectSeq(Words(Pieces, IF Depth = 1 THEN 2 ELSE 4), LAMBDA w : w # << >>))
World(d) ==
    LET def(n) == [s |-> "def", n |-> n, ps |-> << >>, ret |-> NoAnn, doc |-> d]
        m(n, c, ps) == [b |-> "def", n |-> n, c |-> c, ps |-> ps, ret |-> NoAnn, doc |-> d]
        p(n, g, s, set) == [b |-> "prop", n |-> n, ret |-> NoAnn, doc |-> g, set |-> set, st |-> NoAnn, sdoc |-> s]
        cls(n, body) == [s |-> "class", n |-> n, doc |-> d, base |-> "", body |-> body]
    IN ("pk" :> [pkg |-> TRUE, doc |-> d, ss |-> << def("f"), Def("plain", << >>), Val("v", "int"), TVar("T"),
            cls("C", << m("__init__", "inst", << Self >>), m("__call__", "inst", << Self >>), m("i", "inst", << Self >>),
                        m("s", "static", << >>), m("c", "class", << Cls >>), Method("quiet", "inst", << Self >>),
                        p("ro", d, "", FALSE), p("both", d, "setter doc", TRUE), p("sonly", "", d, TRUE), p("gonly", d, "", TRUE), p("none", "", "", TRUE),
                        Attr("k", "int") >>), Class("Plain", << >>) >>])
       @@ ("pk.m" :> [pkg |-> FALSE, doc |-> d, ss |-> << >>]) @@ ("pk.n" :> Mod(<< def("g") >>))
       @@ ("pk.sub" :> [pkg |-> TRUE, doc |-> d, ss |-> << >>]) @@ ("pk.sub.x" :> Mod(<< >>))
CaseList == Numbered("docs", Map(LAMBDA d : Plain(World(d)), Texts \o Grown)
    \o Map(LAMBDA d : Case("", World(d), Config0, << ByName("pk.sub.x"), ByName("pk.n") >>), Texts)
    \o Map(LAMBDA d : With(World(d), [Config0 EXCEPT !.docs = FALSE]), SubSeq(Texts, 1, 6))
    \o Map(LAMBDA d : Case("", World(d), Config0, << FromStrCall("fresh", World(d)["pk"]) >>), Texts))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

(* ---- each item carries its own text, and no other ---------------------------------- *)
Black(c) == c \notin {" ", "\t", "\n", "`", "/"}
Essence(s) == SelectSeq([i \in 1..Len(s) |-> Ch(s, i)], Black)   \* what formatting must not touch
DocFacts == FactsOf("doc")
Text(f) == LET p == Positions(f, "|") IN SubSeq(f, p[3] + 1, Len(f))
At0(f) == LET p == Positions(f, "|") IN SubSeq(f, p[1] + 1, p[3] - 1)
TheDoc == case.world["pk"].doc
Documented == {"mod|pk", "fn|pk.f", "struct|pk.C", "ctor|pk.C::new", "method|pk.C::call", "method|pk.C::i", "static|pk.C::s", "static|pk.C::c",
    "method|pk.C::ro", "method|pk.C::both", "method|pk.C::sonly", "method|pk.C::set_sonly", "method|pk.C::gonly", "method|pk.C::set_gonly",
    "mod|pk.m", "fn|pk.n.g", "mod|pk.sub"}
Plainly == Len(case.calls) = 1 /\ case.calls[1].op = "name"
Carried == AllOk /\ cfg.docs /\ Plainly /\ TheDoc # "" =>
    /\ {At0(f) : f \in DocFacts} = Documented \cup {"method|pk.C::set_both"}
    /\ \A f \in DocFacts : IF At0(f) = "method|pk.C::set_both" THEN Text(f) = " setter doc"
                           ELSE Essence(Text(f)) = Essence(TheDoc)
(* the lines that have something to say are kept, in order *)
BlackLines(s) == LET l == Split(s, "\n") IN SelectSeq([i \in 1..Len(l) |-> SelectSeq([j \in 1..Len(l[i]) |-> Ch(l[i], j)], Black)], LAMBDA x : x # << >>)
Lines == AllOk /\ cfg.docs /\ Plainly => \A f \in DocFacts : At0(f) # "method|pk.C::set_both" => BlackLines(Text(f)) = BlackLines(TheDoc)
Undocumented == Done => \A f \in DocFacts : ~\E x \in {"fn|pk.plain", "struct|pk.Plain", "method|pk.C::quiet", "method|pk.C::none", "fn|pk.v", "fn|pk.set_v"} : At0(f) = x
Off == Done /\ ~cfg.docs => DocFacts = {}
=============================================================================
