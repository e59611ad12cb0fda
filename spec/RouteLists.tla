-------------------------------- MODULE RouteLists --------------------------------
(* Lists of modules to deliver bindings for                                          *)
EXTENDS Worlds
World == Rich @@ Noise
    @@ ("br" :> Mod(<< Def("f", << >>), Do("raise") >>)) @@ ("ex" :> Mod(<< Do("exit") >>)) @@ ("sx" :> Mod(<< Do("syntax") >>))
    @@ ("loud" :> Mod(<< Do("print"), DefD("f", "Prints a lot") >>))
    @@ ("half" :> Pkg(<< Def("f", << >>) >>)) @@ ("half.bad" :> Mod(<< Do("raise") >>)) @@ ("half.good" :> Mod(<< Def("g", << >>) >>))
    @@ ("priv" :> Pkg(<< Def("a", << >>) >>)) @@ ("priv._in" :> Pkg(<< Def("b", << >>), Def("_c", << >>) >>)) @@ ("priv._in._deep" :> Mod(<< Def("d", << >>) >>))
    @@ ("tiny" :> Mod(<< >>))
Lists == << << "pk" >>, << "noise" >>, << "pk.sub.deep", "pk.sub" >>, << "noise", "pk", "pkk" >>, << "pk", "pk" >>,
    << "loud" >>, << "half" >>, << "tiny" >>, << "loud", "half.good", "pk.sub" >>,
    << "missing" >>, << "pk", "missing" >>, << "missing", "pk" >>, << "pk.nothere" >>, << "br" >>, << "pk", "br", "noise" >>,
    << "ex" >>, << "sx" >>, << "half.bad" >>, << "loud", "half.bad" >>,
    << "priv._in" >>, << "tiny", "noise", "priv._in._deep", "pk", "priv", "half.good", "pk.sub", "loud", "pkk", "pk.sub.deep", "priv._in" >>, << "priv", "tiny", "missing" >>, << >> >>   \* nothing to bind
OkTable == [i \in 1..Len(Lists) |-> Lists[i] # << >> /\ ~ImportAll(World, Interp0, Lists[i]).err]
=============================================================================
