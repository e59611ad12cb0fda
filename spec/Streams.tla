--------------------------------- MODULE Streams ---------------------------------
(* The streams of the interpreter (sys.stdout and sys.stderr) while modules are     *)
(* bound: what a muting scope does to them when it is entered and when it is left.  *)
(* A state is [cur, n, saved], per stream: the object that sys has now, how many    *)
(* scopes mute the stream, and what the first of them found there.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Streams == {"out", "err"}
Order == << "out", "err" >>
Idle(c) == [cur |-> c, n |-> [s \in Streams |-> 0], saved |-> [s \in Streams |-> "-"]]
EnterOne(S, s) ==
    [cur |-> [S.cur EXCEPT ![s] = IF S.n[s] = 0 THEN "null" ELSE @],
     n |-> [S.n EXCEPT ![s] = @ + 1],
     saved |-> [S.saved EXCEPT ![s] = IF S.n[s] = 0 THEN S.cur[s] ELSE @]]
LeaveOne(S, s) ==
    [cur |-> [S.cur EXCEPT ![s] = IF S.n[s] = 1 THEN S.saved[s] ELSE @],
     n |-> [S.n EXCEPT ![s] = @ - 1],
     saved |-> [S.saved EXCEPT ![s] = IF S.n[s] = 1 THEN "-" ELSE @]]
(* all streams of a call, mute is the set of those that it mutes *)
Enter(S, mute) == LET a == IF "out" \in mute THEN EnterOne(S, "out") ELSE S
                  IN IF "err" \in mute THEN EnterOne(a, "err") ELSE a
Leave(S, mute) == LET a == IF "err" \in mute THEN LeaveOne(S, "err") ELSE S
                  IN IF "out" \in mute THEN LeaveOne(a, "out") ELSE a
=============================================================================
