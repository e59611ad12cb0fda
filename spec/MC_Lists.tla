--------------------------------- MODULE MC_Lists ---------------------------------
(* What the routes of MC_Routes deliver: the bindings of each list of modules.       *)
EXTENDS RouteLists
CaseList == Map(LAMBDA i : Case("list-" \o ToString(i), World, Config0, << CallNames(Lists[i]) >>), [i \in 1..Len(Lists) |-> i])
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars
=============================================================================
