-------------------------------- MODULE MC_Classes --------------------------------
(* Class bodies: every pair of members, own and inherited, and name clashes (C20).   *)
EXTENDS Cases
CONSTANT Depth
Members(x) == << Method(x, "inst", << Self, P("a", 1) >>), Method(x, "inst", << >>), Method(x, "inst", << P("me", 1) >>),
    Method(x, "static", << P("a", 1), P("b", 3) >>), Method(x, "static", << >>), Method(x, "static", << P("self", 1) >>),
    Method(x, "class", << Cls, P("a", 1) >>), Method(x, "class", << Cls >>),
    Prop(x, A0("int")), PropRW(x, A0("int"), A0("str")), PropRW(x, NoAnn, A0("str")), Prop(x, NoAnn),
    Attr(x, "int"), Attr(x, "list"), Attr(x, "pathlib.Path"), Nested(x) >>
(* static and class methods are also those of subclasses of these types *)
Decorated(x) == << Deco(Method(x, "static", << P("a", 1) >>), "abstractstatic"), Deco(Method(x, "static", << >>), "substatic"), Deco(Method(x, "static", << P("a", 1) >>), "static+"),
    Deco(Method(x, "class", << Cls, P("a", 1) >>), "abstractclass"), Deco(Method(x, "class", << Cls >>), "subclass"), Deco(Method(x, "class", << P("klass", 1), P("b", 3) >>), "class+"),
    Deco(Method(x, "inst", << Self, P("a", 1) >>), "abstract"), Deco(Method(x, "inst", << Self >>), "final"),
    Deco(Method(x, "inst", << Self, P("a", 1), P("b", 3) >>), "wraps"), Deco(Method(x, "static", << P("a", 1) >>), "static+wraps"), Deco(Method(x, "inst", << Self, P("a", 1) >>), "async"),
    Deco(Method("__init__", "inst", << Self, P("a", 1) >>), "abstract"), Deco(Method("__call__", "inst", << Self, P("a", 1) >>), "final") >>
(* several names are taken *)
Taken == << << Method("__call__", "inst", << Self, P("a", 1) >>), Method("call", "inst", << Self >>), Method("call1", "static", << >>) >>,
    << Method("__call__", "inst", << Self, P("a", 1) >>), Method("call", "inst", << Self >>), Method("call1", "static", << >>), Method("call2", "class", << Cls >>), Method("call4", "inst", << Self >>) >>,
    << Method("__call__", "inst", << Self, P("a", 1) >>), Method("call", "inst", << Self >>), Method("call2", "static", << >>) >>,
    << Method("__init__", "inst", << Self, P("a", 1) >>), Method("new", "inst", << Self >>), Method("new1", "static", << >>), Method("new2", "class", << Cls >>) >>,
    << Method("__init__", "inst", << Self, P("a", 1) >>), Method("new1", "inst", << Self >>), Attr("new", "int") >>,
    << Method("__init__", "inst", << Self, P("a", 1) >>), Method("__call__", "inst", << Self >>), Method("new", "inst", << Self >>), Method("call", "inst", << Self >>), PropRW("new1", NoAnn, NoAnn), Attr("call1", "int") >>,
    << PropRW("x", NoAnn, NoAnn), Method("x1", "inst", << Self >>), Method("get_x", "inst", << Self >>), Method("set_x", "inst", << Self >>), Method("get_x1", "inst", << Self >>) >> >>
Specials == << Method("__init__", "inst", << Self, P("p", 1), PD("q", 3, A0("int")) >>), Method("__init__", "inst", << Self >>),
    Method("__init__", "inst", << >>), Method("__init__", "static", << P("p", 1) >>),
    Method("__call__", "inst", << Self, P("p", 1) >>), Method("__call__", "inst", << Self >>), Method("__call__", "inst", << >>),
    Method("__call__", "static", << P("p", 1) >>),
    Method("__init__", "inst", << Self, P("args", 2), P("kwargs", 4) >>),
    Method("__len__", "inst", << Self >>), Method("__repr__", "inst", << Self >>), Method("_hidden", "inst", << Self >>),
    Method("__new__", "static", << Cls >>) >>
One == Map(LAMBDA x : << x >>, Members("x") \o Specials)
Two == Cross(LAMBDA x, y : << x, y >>, Members("x") \o Specials, Members("y"))
Over == Cross(LAMBDA x, y : << x, y >>, Members("x"), Members("x"))
Clash == Cross(LAMBDA x, y : << x, y >>, Members("x"), Members("get_x") \o Members("set_x"))
    \o Cross(LAMBDA x, y : << x, y >>, Specials, Members("new") \o Members("call"))
Own(body) == << Class("K", body) >>
Inherited(body) == << Class("B", body), SubClass("K", "B", << >>) >>
Mixed(b1, b2) == << Class("B", b1), SubClass("K", "B", b2) >>
Bodies == Map(Own, One) \o Map(Inherited, One) \o Map(Own, Over)
    \o Map(Own, Taken) \o Map(Inherited, Taken) \o Map(LAMBDA x : Own(<< x >>), Decorated("x")) \o Map(LAMBDA x : Inherited(<< x >>), Decorated("x"))
    \o Cross(LAMBDA x, y : Mixed(<< x >>, << y >>), Decorated("x"), SubSeq(Members("x"), 1, 8)) \o Cross(LAMBDA x, y : Mixed(<< y >>, << x >>), Decorated("x"), SubSeq(Members("x"), 1, 8))
    \o (IF Depth = 1 THEN SelectSeq(Map(Own, Clash), LAMBDA b : b[1].body[1].b = "prop" \/ b[1].body[1].n \in {"__init__", "__call__"})
        ELSE Map(Own, Two) \o Map(Own, Clash) \o Map(Inherited, Clash) \o Map(Inherited, Two))
    \o Cross(LAMBDA x, y : Mixed(<< x >>, << y >>), Members("x"), Members("x") \o << Attr("y", "str") >>)
    \o Cross(LAMBDA x, y : Mixed(<< x >>, << y >>), Specials, << Specials[1], Specials[5], Attr("y", "str") >>)
    \o << << Class("A", << Method("one", "inst", << Self >>), Method("two", "static", << P("a", 1) >>) >>),
             SubClass("B", "A", << Method("two", "inst", << Self, P("b", 1) >>), Prop("three", A0("str")) >>),
             SubClass("K", "B", << Method("one", "class", << Cls, P("c", 1) >>) >>) >> >>
CaseList == Numbered("classes", Map(LAMBDA b : Plain(At(Skeleton, "pk.sub", b)), Bodies))
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars

(* Independent of the engine: what class K offers, from its statement and those of its bases *)
Stmts == W["pk.sub"].ss
RECURSIVE Lookup(_, _)
ClassOf(n) == Stmts[CHOOSE i \in 1..Len(Stmts) : Stmts[i].n = n]
LastOf(body, n) == body[CHOOSE i \in 1..Len(body) : body[i].n = n /\ \A j \in (i+1)..Len(body) : body[j].n # n]
Lookup(c, n) ==   \* the member that an instance of c sees
    LET s == ClassOf(c) IN
    IF \E i \in 1..Len(s.body) : s.body[i].n = n THEN << LastOf(s.body, n) >>
    ELSE IF s.base = "" THEN << >> ELSE Lookup(s.base, n)
RECURSIVE AllNames(_)
AllNames(c) == LET s == ClassOf(c) IN {s.body[i].n : i \in 1..Len(s.body)} \cup (IF s.base = "" THEN {} ELSE AllNames(s.base))
Named(ps) == Paren([i \in 1..Len(ps) |-> "p_" \o ps[i].n])
At0 == "pk.sub.K::"
Numbers(n) == ({n} \cup {n \o ToString(i) : i \in 1..4})
Convention == AllOk => \A n \in AllNames("K") :
    LET b == Lookup("K", n)[1] IN
    CASE n \in {"__init__", "__call__"} /\ (b.c # "inst" \/ b.ps = << >>) -> TRUE
      [] b.b = "def" /\ n = "__init__" /\ b.c = "inst" /\ Len(b.ps) > 0 ->
            \E c \in Numbers("new") : ("ctor|" \o At0 \o c \o Named(Tail(b.ps))) \in facts
      [] b.b = "def" /\ n = "__call__" /\ b.c = "inst" /\ Len(b.ps) > 0 ->
            \E c \in Numbers("call") : ("method|" \o At0 \o c \o Named(Tail(b.ps))) \in facts
      [] b.b = "def" /\ StartsWith(n, "_") /\ n \notin {"__init__", "__call__"} ->
            ~\E f \in facts : \E k \in {"static|", "method|"} : StartsWith(f, k \o At0 \o n)
      [] b.b = "def" /\ b.c = "inst" /\ b.ps # << >> /\ b.ps[1].n = "self" -> ("method|" \o At0 \o n \o Named(Tail(b.ps))) \in facts
      [] b.b = "def" /\ b.c = "class" -> ("static|" \o At0 \o n \o Named(Tail(b.ps))) \in facts
      [] b.b = "def" /\ b.c = "static" /\ (b.ps = << >> \/ b.ps[1].n # "self") -> ("static|" \o At0 \o n \o Named(b.ps)) \in facts
      [] b.b \in {"prop", "val"} ->
            /\ \E g \in {n, "get_" \o n} : ("method|" \o At0 \o g \o "()") \in facts
            /\ (b.b = "prop" /\ b.set /\ ("set_" \o n) \notin AllNames("K")) => ("method|" \o At0 \o "set_" \o n \o "(p_value)") \in facts
            /\ (b.b = "val" \/ ~b.set) /\ ("set_" \o n) \notin AllNames("K") => ("method|" \o At0 \o "set_" \o n \o "(p_value)") \notin facts
      [] OTHER -> TRUE
=============================================================================
