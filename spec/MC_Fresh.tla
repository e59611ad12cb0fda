---------------------------------- MODULE MC_Fresh ----------------------------------
(* Bindings at every depth, used in every order in an interpreter that has imported   *)
(* nothing, for packages that import all, some or none of their modules (C06).        *)
EXTENDS Runtime
CONSTANT Depth
Own(m) == << LDef("f", << P("a", 1) >>), Val("x", "int"),
    Class("K", << LMethod("K", "__init__", "inst", << Self, P("a", 1) >>), LMethod("K", "m", "inst", << Self >>),
                  LMethod("K", "s", "static", << P("a", 1) >>) >>) >>
Full == [m \in DOMAIN Skeleton |-> [Skeleton[m] EXCEPT !.ss = Own(m)]]
(* what pk/__init__.py and pk/sub/__init__.py begin or end with: [b, e, vias] *)
Begin(ss, vias) == [b |-> ss, e |-> << >>, vias |-> vias]
End(ss, vias) == [b |-> << >>, e |-> ss, vias |-> vias]
ByTop == << Begin(<< >>, << >>),
    Begin(<< ImportAs("pk.sub.deep", "") >>, << >>),
    End(<< ImportAs("pk.sub.deep", "d"), ImportAs("pk.a", "") >>, << >>),
    End(<< From("pk.a", "f", "fa"), From("pk.sub.deep", "f", "fd") >>, << SVia("pk", "fa", "pk.a", "f", << VInt("1") >>), SVia("pk", "fd", "pk.sub.deep", "f", << VInt("2") >>) >>),
    Begin(<< From("pk", "sub", "sub"), Star("pk.a") >>, << >>),
    End(<< From("pk.sub", "f", "fs"), Try("pk.sub.broken") >>, << SVia("pk", "fs", "pk.sub", "f", << VInt("3") >>) >>),
    End(<< From("pk", "a", "aa"), From("pk.sub", "deep", "dd") >>, << >>) >>
BySub == << Begin(<< >>, << >>),
    Begin(<< ImportAs("pk.a", "") >>, << >>),
    End(<< From("pk.sub.deep", "f", "fd"), From("pk.sub.b", "f", "fb") >>, << SVia("pk.sub", "fd", "pk.sub.deep", "f", << VInt("4") >>), SVia("pk.sub", "fb", "pk.sub.b", "f", << VInt("5") >>) >>),
    End(<< From("pk.sub", "b", "bb") >>, << >>),
    Begin(<< Star("pk.sub.deep") >>, << >>) >>
FreshWorld(t, s) == [Full EXCEPT !["pk"].ss = t.b \o @ \o t.e, !["pk.sub"].ss = s.b \o @ \o s.e] @@ ("pk.sub.broken" :> Mod(<< Do("raise") >>))
FreshMenu(t, s) == t.vias \o s.vias
    \o << SFn("pk", "f", << VInt("1") >>), SFn("pk.a", "f", << VInt("2") >>), SFn("pk.sub.deep", "f", << VInt("3") >>),
          SFn("pk.sub.b", "f", << VInt("4") >>), SStatic("pk.sub", "K", "s", << VInt("5") >>),
          SGet("pk.sub.deep", "x"), SSet("pk.sub.b", "x", VInt("6")), SNew("pk.sub.deep", "K", << VInt("7") >>), SPoke("pk.sub", "", "x", VInt("8")) >>
SceneList == Scenes2("fresh", Cross(LAMBDA t, s : Free(FreshWorld(t, s), FreshMenu(t, s), Depth), ByTop, BySub))
Init == RStartOne(SceneList)
Spec == Init /\ [][RNext]_rvars
=============================================================================
