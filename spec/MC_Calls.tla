--------------------------------- MODULE MC_Calls ---------------------------------
(* Every parameter list on every kind of callable, called with distinct arguments (C04). *)
EXTENDS Runtime
CONSTANT Depth
Ordered(w) == /\ \A i \in 1..(Len(w) - 1) : w[i] <= w[i + 1]
              /\ Cardinality({i \in 1..Len(w) : w[i] = 2}) <= 1
              /\ Cardinality({i \in 1..Len(w) : w[i] = 4}) <= 1
KindLists(n) == SetToSeq({w \in UNION {[1..k -> 0..4] : k \in 0..n} : Ordered(w)})
Letters == << "a", "b", "c", "d", "e", "f" >>
ParamList(w, d) == [i \in 1..Len(w) |-> [n |-> Letters[i], k |-> w[i], t |-> NoAnn, d |-> d /\ w[i] \in {0, 1, 3} /\ i * 2 > Len(w)]]
Lists == Map(LAMBDA w : ParamList(w, Len(w) % 2 = 0), KindLists(IF Depth = 1 THEN 4 ELSE 5))
Odd == << << P("self_", 1), P("args", 1), P("kwargs", 3) >>, << P("_", 1), P("a", 1) >>, << P("a", 1), P("_", 3) >>,
    << P("args", 2), P("kwargs", 4) >>, << P("py", 1), P("p_py", 1) >>, << P("type", 1), P("match", 3), P("fn", 4) >>,
    << P("r", 1), P("result", 2), P("call", 3) >>, << P("cls", 1), P("k", 3) >> >>
(* the i-th argument is the number i; *args and **kwargs vary with the variant of the call *)
Num(i) == VInt(ToString(i))
ArgOf(ps, p, i, v) ==
    CASE p.k = 2 -> VX("tuple", CASE v = 1 -> << >> [] v = 2 -> << VInt("70") >> [] OTHER -> << VInt("71"), VStr("'seven'") >>)
      [] p.k = 4 -> CASE v = 1 -> Absent [] v = 2 -> VX("dict", << >>)
                      [] v = 4 -> VX("dict", FlattenSeq([j \in 1..(i - 1) |-> IF ps[j].k = 3 THEN << VStr("'" \o ps[j].n \o "'"), VInt("9") >> ELSE << >>])) [] OTHER -> VX("dict", << VStr("'y'"), VInt("8"), VStr("'z'"), VNone >>)
      [] OTHER -> IF v = 2 /\ i = 1 THEN VX("list", << VInt("5") >>) ELSE IF v = 3 THEN VStr("'x" \o ToString(i) \o "'") ELSE Num(i)
Args(ps, v) == [i \in 1..Len(ps) |-> ArgOf(ps, ps[i], i, v)]
Variants(ps) == IF (\E i \in 1..Len(ps) : ps[i].k = 3) /\ (\E i \in 1..Len(ps) : ps[i].k = 4) THEN << 1, 2, 3, 4 >> ELSE IF \E i \in 1..Len(ps) : ps[i].k \in {2, 4} THEN << 1, 2, 3 >> ELSE << 1, 3 >>
Prefixed(x, ps) == << IF Len(ps) > 0 /\ ps[1].k = 0 THEN P(x, 0) ELSE P(x, 1) >> \o ps
Has(ps, n) == \E i \in 1..Len(ps) : ps[i].n = n
(* One module per parameter list, with all kinds of callables, and the calls of them *)
World(ps, how) ==
    At(Skeleton, "pk.a",
        << LDefHow("f", ps, how), LClosure("h", ps), Deco(LDefHow("w", ps, how), "wraps"),
           Class("B", << LMethodHow("B", "inh", "inst", Prefixed("self", ps), how), LMethod("B", "sinh", "static", ps), LMethod("B", "cinh", "class", Prefixed("klass", ps)) >>),
           SubClass("K", "B", << LMethodHow("K", "__init__", "inst", Prefixed("self", ps), IF how = "raise" THEN "raise" ELSE "none"),
                        LMethodHow("K", "m", "inst", Prefixed("self", ps), how), LMethodHow("K", "s", "static", ps, how),
                        LMethodHow("K", "c", "class", Prefixed("klass", ps), how),
                        LMethodHow("K", "__call__", "inst", Prefixed("self", ps), how) >>),
           Class("O", << LMethodHow("O", "__init__", "inst", << P("self", 1) >>, "none"), LMethodHow("O", "m", "inst", Prefixed("self", ps), how) >>) >>
        \o (IF how = "name" THEN << LLambda("l", ps) >> ELSE << >>))
Menu(ps, how) ==
    FlattenSeq(Map(LAMBDA v : LET a == Args(ps, v) IN
        << SFn("pk.a", "f", a), SFn("pk.a", "h", a), SFn("pk.a", "w", a) >> \o (IF how = "name" THEN << SFn("pk.a", "l", a) >> ELSE << >>)
        \o << SNew("pk.a", "K", a), SStatic("pk.a", "K", "s", a), SStatic("pk.a", "K", "c", a), SStatic("pk.a", "K", "sinh", a),
           SStatic("pk.a", "K", "cinh", a) >>,
        Variants(ps)))
    \o << SNew("pk.a", "O", << >>) >>
    \o FlattenSeq(Map(LAMBDA v : LET a == Args(ps, v) IN << SMethod("pk.a", "O", "m", IF how = "raise" THEN 1 ELSE Len(Variants(ps)) + 1, a) >>, Variants(ps)))
    \o (IF how = "raise" THEN << >> ELSE
        FlattenSeq(Map(LAMBDA v : LET a == Args(ps, v) IN
            << SMethod("pk.a", "K", "m", 1, a), SMethod("pk.a", "K", "__call__", 2, a), SMethod("pk.a", "K", "inh", 1, a) >>, Variants(ps))))
Scenes == Map(LAMBDA ps : Scene(World(ps, "name"), Menu(ps, "name")), Lists \o Odd)
    \o Map(LAMBDA ps : Scene(World(ps, "raise"), Menu(ps, "raise")), SelectSeq(Lists, LAMBDA ps : Len(ps) <= 2))
SceneList == [i \in 1..Len(Scenes) |-> [Scenes[i] EXCEPT !.id = "calls-" \o ToString(i)]]
Init == RStartOne(SceneList)
Spec == Init /\ [][RNext]_rvars
(* What Python received is what Rust gave, parameter by parameter *)
ArgumentsArrive == \A i \in 1..Len(hist) : hist[i].op.op = "fn" =>
    LET s == Stmt(hist[i].op.m, hist[i].op.n) IN
    \A j \in 1..Len(s.ps) : hist[i].log[1].a[s.ps[j].n] = Arrived(s.ps, hist[i].op.args, j)
=============================================================================
