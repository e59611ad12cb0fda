---------------------------------- MODULE Cases ----------------------------------
(* Cases of the engine: a world, a configuration, and a history of calls            *)
EXTENDS Props, Vocab

Plain(world) == Case("", world, Config0, << ByName("pk") >>)
With(world, c) == Case("", world, c, << ByName("pk") >>)
Calls(world, calls) == Case("", world, Config0, calls)
StartOne(cs) == \E i \in 1..Len(cs) : Start(cs[i]) /\ PrintT("##" \o ToJson(cs[i]))

(* Announces the case to the driver *)
Announce(c) == PrintT("##" \o ToJson(c))
=============================================================================
