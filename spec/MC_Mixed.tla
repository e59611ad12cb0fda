--------------------------------- MODULE MC_Mixed ---------------------------------
(* Packages in which everything meets: pseudo-random worlds, configurations and       *)
(* histories of calls, made of the constructs that the other families enumerate one    *)
(* by one. World number i is a function of i only (all properties).                    *)
EXTENDS Cases
CONSTANTS Depth,   \* how many worlds there are
          From0    \* the first one

(* ---- numbers from numbers: x^3 permutes the residues of 46337 ------------------- *)
Prime == 46337
Cube(x) == LET y == x % Prime IN ((y * y) % Prime) * y % Prime
H(x, k) == Cube(Cube(Cube(x) + k) + x)
(* one of s; one with probability 1/n *)
Pick(x, k, s) == s[(H(x, k) % Len(s)) + 1]
Chance(x, k, n) == H(x, k + 7000) % n = 0
Upto(x, k, n) == H(x, k + 9000) % (n + 1)

(* ---- names and types ---------------------------------------------------------- *)
Names == << "x", "y", "f", "g", "C", "D", "K", "T", "v", "type", "match", "deep", "a", "sub", "b", "call", "new", "get_x", "set_x", "_h", "get_type", "self", "XE4X" >>
Inner0 == << "x", "y", "m", "s", "type", "get_x", "set_x", "new", "call", "new1", "_i", "__init__", "__call__", "__len__", "obj", "crate" >>
Docs == << "", "", "", "One line", "First\n\n    Indented\n    Last", "a | b */ \\ \"q\"" >>
Types0 == << NoAnn, NoAnn, A0("int"), A0("str"), A0("float"), A0("bytes"), A0("list"), A0("None"), A0("object"), A0("pathlib.Path"), A0("Any"),
    AS("lit", "int"), AS("lit", "list[str]"), AS("lit", "nowhere.T"),
    AS("lit", "pk.a.C"), AS("lit", "pk.sub.D"), AS("lit", "pk.a.T"), AS("lit", "other.K"), AS("lit", "pk.sub.T | None"), AS("lit", "dict[str, pk.sub.b.D]"), AS("lit", "pkk.g") >>
(* known: the classes and type variables of the module, as far as it goes *)
RECURSIVE TypeOf(_, _, _, _)
TypeOf(x, k, known, depth) ==
    IF depth > 0 /\ Chance(x, k, 3)
    THEN LET t == TypeOf(x, k + 1, known, depth - 1)
             u == TypeOf(x, k + 2, known, depth - 1)
             p(q) == IF q.a = "" THEN A0("int") ELSE q
         IN CASE Upto(x, k + 3, 5) = 0 -> AN("generic:list", << p(t) >>)
              [] Upto(x, k + 3, 5) = 1 -> AN("generic:dict", << A0("str"), p(t) >>)
              [] Upto(x, k + 3, 5) = 2 -> AN("Optional", << IF p(t).a \in {"None", "Optional"} THEN A0("str") ELSE p(t) >>)
              [] Upto(x, k + 3, 5) = 3 -> AN("generic:tuple", << p(t), p(u) >>)
              [] Upto(x, k + 3, 5) = 4 -> AN("generic:set", << IF p(t).a \in {"lit"} THEN A0("str") ELSE p(t) >>)
              [] OTHER -> AN("Annotated", << IF p(t).a = "Annotated" THEN A0("int") ELSE p(t) >>)
    ELSE IF known # << >> /\ Chance(x, k + 4, 2) THEN AS("ref", Pick(x, k + 5, known))
    ELSE Pick(x, k + 6, Types0)

(* ---- parameters: kinds in order, at most one of * and ** -------------------------- *)
Letters == << "a", "b", "c", "d", "e" >>
Odd0 == << "type", "args", "py", "p_a", "_", "match" >>
RECURSIVE KindsOf(_, _, _, _)
KindsOf(x, k, n, least) ==
    IF n = 0 \/ least > 4 THEN << >>
    ELSE LET c == least + (H(x, k) % (5 - least))
         IN << c >> \o KindsOf(x, k + 1, n - 1, IF c \in {2, 4} THEN c + 1 ELSE c)
ParamsOf(x, k, known) ==
    LET ks == TLCEval(KindsOf(x, k, Upto(x, k + 10, 4), IF Chance(x, k + 11, 2) THEN 1 ELSE 0))
        from == 1 + Upto(x, k + 12, 4)
    IN [i \in 1..Len(ks) |-> [n |-> IF Chance(x, k + 12 + i, 5) THEN Letters[i] \o "_" \o Pick(x, k + 20, Odd0) ELSE IF i = 1 /\ Chance(x, k + 21, 3) THEN Pick(x, k + 21, Odd0) ELSE Letters[i],
                              k |-> ks[i], t |-> IF ks[i] \in {2, 4} THEN NoAnn ELSE TypeOf(x, k + 25 + i * 7, known, 2),
                              d |-> (ks[i] \in {0, 1} /\ i >= from) \/ (ks[i] = 3 /\ Chance(x, k + 70 + i, 2))]]

(* ---- classes ---------------------------------------------------------------- *)
MemberOf(x, k, known) ==
    LET n == Pick(x, k, Inner0)
        ps == ParamsOf(x, k + 100, known)
        first == IF Len(ps) > 0 /\ ps[1].k = 0 THEN P("self", 0) ELSE P("self", 1)
        this == IF Chance(x, k + 5, 6) THEN [first EXCEPT !.n = "me"] ELSE first
        kind == Upto(x, k + 1, 7)
        special == n \in {"__init__", "__call__"}
    IN CASE special \/ kind <= 2 -> [Method(n, "inst", << this >> \o ps) EXCEPT !.ret = IF special THEN NoAnn ELSE TypeOf(x, k + 2, known, 2), !.doc = Pick(x, k + 3, Docs)]
         [] kind = 3 -> [Method(n, "static", ps) EXCEPT !.doc = Pick(x, k + 3, Docs)]
         [] kind = 4 -> Method(n, "class", << [first EXCEPT !.n = "cls"] >> \o ps)
         [] kind = 5 -> Prop(n, TypeOf(x, k + 4, known, 2))
         [] kind = 6 -> [PropRW(n, TypeOf(x, k + 4, known, 1), TypeOf(x, k + 40, known, 1)) EXCEPT !.doc = Pick(x, k + 3, Docs), !.sdoc = Pick(x, k + 6, Docs)]
         [] OTHER -> Attr(n, Pick(x, k + 7, << "int", "str", "list", "None" >>))

(* ---- statements ------------------------------------------------------------- *)
Classes(ss) == {ss[i].n : i \in {i \in 1..Len(ss) : ss[i].s = "class" /\ \A j \in (i + 1)..Len(ss) : "n" \notin DOMAIN ss[j] \/ ss[j].n # ss[i].n}}
TypeVars(ss) == {ss[i].n : i \in {i \in 1..Len(ss) : ss[i].s = "tvar" /\ \A j \in (i + 1)..Len(ss) : "n" \notin DOMAIN ss[j] \/ ss[j].n # ss[i].n}}
Defs(ss) == {ss[i].n : i \in {i \in 1..Len(ss) : ss[i].s = "def" /\ \A j \in (i + 1)..Len(ss) : "n" \notin DOMAIN ss[j] \/ ss[j].n # ss[i].n}}
Bare(ss) == {n \in Classes(ss) : \E i \in 1..Len(ss) : ss[i].s = "class" /\ ss[i].n = n /\ ss[i].base = "" /\ ss[i].body = << >>
                                    /\ \A j \in 1..Len(ss) : ss[j].s = "class" /\ ss[j].n = n => j = i}
Untyped(ps) == [i \in 1..Len(ps) |-> [ps[i] EXCEPT !.t = NoAnn]]
(* one definition, made of what there is so far *)
DefOf(x, k, ss, m) ==
    LET n == Pick(x, k, Names)
        \* known finding: a class called like a local variable of the macros of pyo3
        c == IF n = "f" THEN "F" ELSE n
        known == TLCEval(SetToSeq(Classes(ss) \cup TypeVars(ss)))
        \* class bodies see their own members first
        inner == SelectSeq(known, LAMBDA q : q \notin Range(Inner0))
        bases == << "", "" >> \o SetToSeq(Classes(ss) \ {c})
        kind == Upto(x, k + 1, 15)
        body == [i \in 1..Upto(x, k + 2, 4) |-> MemberOf(x, k + 500 * i, inner)]
    IN CASE kind <= 4 -> [DefT(n, ParamsOf(x, k + 50, known), TypeOf(x, k + 3, known, 2)) EXCEPT !.doc = Pick(x, k + 4, Docs)]
         [] kind <= 8 -> [SubClass(c, Pick(x, k + 5, bases), body) EXCEPT !.doc = Pick(x, k + 4, Docs)]
         [] kind <= 10 -> Val(n, Pick(x, k + 6, << "int", "str", "list", "None", "object", "types.SimpleNamespace" >>))
         [] kind = 11 -> TVar(n)
         [] kind = 12 -> IF Bare(ss) \ {n} # {} THEN Of("inst", n, Pick(x, k + 7, SetToSeq(Bare(ss) \ {n}))) ELSE Class(c, << >>)
         [] kind = 13 -> IF Defs(ss) \ {n} # {} THEN Of(Pick(x, k + 8, << "alias", "partial" >>), n, Pick(x, k + 7, SetToSeq(Defs(ss) \ {n}))) ELSE Class(c, << >>)
         [] kind = 14 -> IF Classes(ss) \ {c} # {} THEN Of("alias", c, Pick(x, k + 7, SetToSeq(Classes(ss) \ {c}))) ELSE Lambda(n, Untyped(ParamsOf(x, k + 50, << >>)))
         [] OTHER -> Pick(x, k + 9, << Lambda(n, Untyped(ParamsOf(x, k + 50, << >>))), Closure(n, << P("a", 1) >>), Of("builtin", n, "len"), BoundM(n), TMade(n, "newtype"), TMade(n, "union"),
                                      [s |-> "foreign", n |-> n, of |-> "other.m"], Virtual(n \o "v", Dot(m, n \o "v"), << Def("f", << >>), Class("C", << >>) >>) >>)
RECURSIVE DefsOf(_, _, _, _, _)
DefsOf(x, k, n, ss, m) == IF n = 0 THEN ss ELSE DefsOf(x, k + 3000, n - 1, TLCEval(Append(ss, DefOf(x, k, ss, m))), m)

Modules == << "pk", "pk.a", "pk.sub", "pk.sub.deep", "pk.sub.b", "pk._p", "pk.type", "other", "other.m", "pkk" >>
IsPkg(m) == m \in {"pk", "pk.sub", "other"}
Key(m) == CHOOSE i \in 1..Len(Modules) : Modules[i] = m
Present(x) == SelectSeq(Modules, LAMBDA m : CASE m \in {"pk", "other"} -> TRUE [] m \in {"pk.a", "pk.sub", "other.m"} -> ~Chance(x, Key(m), 5) [] OTHER -> Chance(x, Key(m), 2))
There(x) == LET ms == Present(x) IN SelectSeq(ms, LAMBDA m : Parent(m) = "" \/ Parent(m) \in Range(ms))
MKey(x, m) == (x * 31 + Key(m) * 1999) % Prime
Own(x, m) == DefsOf(MKey(x, m), 1, Upto(MKey(x, m), 2, 5), << >>, m)
(* what one module imports from the others; own: what they define *)
Bound1(ss) == {ss[i].n : i \in {i \in 1..Len(ss) : "n" \in DOMAIN ss[i]}}
ImportOf(y, k, m, ms, own) ==
    LET of == Pick(y, k, SelectSeq(ms, LAMBDA q : q # m))
        names == SetToSeq(Bound1(own[of]))
        n == IF names = << >> THEN "" ELSE Pick(y, k + 1, names)
        kind == Upto(y, k + 2, 7)
        as == IF Chance(y, k + 3, 3) THEN Pick(y, k + 4, << "q", "_q", "type", "r", "h", "C" >>) ELSE n
        c == IF of \in DOMAIN own /\ Classes(own[of]) # {} THEN Pick(y, k + 5, SetToSeq(Classes(own[of]))) ELSE ""
    IN CASE kind = 0 -> << Star(of) >>
         [] kind = 1 -> << ImportAs(of, Pick(y, k + 6, << "", "q", "z" >>)) >>
         [] kind = 2 /\ Parent(of) # "" -> << From(Parent(of), Leaf(of), Leaf(of)) >>
         [] kind \in {3, 4} /\ c # "" -> << From(of, c, c), DefT("u", << PT("a", 1, AS("ref", c)), PT("b", 3, AN("generic:list", << AS("ref", c) >>)) >>, AS("ref", c)) >>
         [] n # "" -> << From(of, n, as) >>
         [] OTHER -> << >>
ImportsOf(y, m, ms, own) == FlattenSeq([i \in 1..Upto(y, 21, 3) |-> ImportOf(y, 100 + 20 * i, m, ms, own)])
(* a __all__ of some of the names that are there *)
AllPart(y, ss) ==
    IF ~Chance(y, 31, 3) THEN << >>
    ELSE LET names == SetToSeq(Bound1(ss)) IN
         << AllOf([i \in 1..Upto(y, 32, 4) |-> IF names = << >> \/ Chance(y, 33 + i, 6) THEN Pick(y, 40 + i, << "missing", "sub", "a", "_h", "deep" >>) ELSE Pick(y, 50 + i, names)]) >>
Broken(y) == IF Chance(y, 61, 25) THEN << Do(Pick(y, 62, << "raise", "exit" >>)) >> ELSE IF Chance(y, 63, 60) THEN << Bombed("Z") >> ELSE << >>
WorldOf(x) ==
    LET ms == TLCEval(There(x))
        own == TLCEval([m \in Range(ms) |-> Own(x, m)])
        file(m) == LET y == MKey(x, m)
                       ss == TLCEval(own[m] \o ImportsOf(y, m, ms, own))
                   IN [pkg |-> IsPkg(m), doc |-> Pick(y, 71, Docs), ss |-> ss \o AllPart(y, ss) \o (IF m \in {"pk", "other"} THEN << >> ELSE Broken(y))]
    IN TLCEval([m \in Range(ms) |-> file(m)])
CfgOf(x) ==
    IF Chance(x, 81, 2) THEN Config0
    ELSE LET flip(k, f, n) == IF Chance(x, k, n) THEN ~Config0[f] ELSE Config0[f] IN
         [Config0 EXCEPT !.traverse = flip(82, "traverse", 8), !.preludes = flip(83, "preludes", 6), !.imports = flip(84, "imports", 6), !.classes = flip(85, "classes", 6),
             !.typevars = flip(86, "typevars", 6), !.functions = flip(87, "functions", 6), !.properties = flip(88, "properties", 6), !.docs = flip(89, "docs", 6),
             !.private = flip(90, "private", 5), !.deps = flip(91, "deps", 3),
             !.block = IF Chance(x, 92, 3) THEN @ \cup {Pick(x, 93, << "sub", "x", "C", "f", "a", "m", "__init__" >>)} ELSE @]
CallsOf(x, ms) ==
    LET one(i) == LET p == IF Chance(x, 100 + i, 2) THEN "pk" ELSE Pick(x, 110 + i, ms)
                      q == Pick(x, 120 + i, ms)
                  IN CASE Upto(x, 130 + i, 7) = 0 -> CallModules(<< p, q >>)
                       [] Upto(x, 130 + i, 7) = 1 -> CallNames(<< p, q >>)
                       [] Upto(x, 130 + i, 7) = 2 -> FromStrCall("txt", [pkg |-> FALSE, doc |-> "", ss |-> << Def("f", << P("a", 1) >>) >>])
                       [] OTHER -> ByName(p)
    IN [i \in 1..(1 + (IF Chance(x, 141, 3) THEN Upto(x, 142, 2) ELSE 0)) |-> one(i)]
CaseOf(x) == LET w == WorldOf(x) IN TLCEval([Case("", w, CfgOf(x), CallsOf(x, There(x))) EXCEPT !.id = "mixed-" \o ToString(x)])

(* ---- situations that the engine leaves open or that are known findings -------------- *)
Subs0(w, t) == {Leaf(p) : p \in {p \in DOMAIN w : Parent(p) = t}}
After(w, ps) == TLCEval(Forgive(ImportAll(w, Interp0, ps)))
(* something imported takes the name of a submodule that it does not come from *)
Shadows(w) == \E ps \in {SetToSeq(DOMAIN w)} \cup {<< p >> : p \in DOMAIN w} : LET s == After(w, ps) IN \E t \in DOMAIN s.env : t \in DOMAIN w /\ \E n \in Subs0(w, t) \cap DOMAIN s.env[t] :
    LET o == s.env[t][n] IN ~(o.k = "module" /\ o.an = Dot(t, n)) /\ o.m # t
(* the workers of TLC make the worlds: a number becomes a case in the first step *)
Init == \E i \in 1..Depth :
    /\ case = [n |-> From0 + i] /\ phase = "new"
    /\ st = Interp0 /\ ci = 1 /\ queue = << >> /\ stack = << >> /\ pend = EmptyTree
    /\ tree = EmptyTree /\ emb = {} /\ outs = << >> /\ facts = {}
Make ==
    /\ phase = "new"
    /\ LET c == CaseOf(case.n) IN
       IF Shadows(c.world) THEN phase' = "left out" /\ UNCHANGED case
       ELSE phase' = "idle" /\ case' = c /\ Announce(c)
    /\ UNCHANGED << st, ci, queue, stack, pend, tree, emb, outs, facts >>
Spec == Init /\ [][Make \/ (phase # "new" /\ Next)]_vars
=============================================================================
