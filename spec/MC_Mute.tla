--------------------------------- MODULE MC_Mute ---------------------------------
(* Muting scopes of several threads, interleaved at every single stream (C11): a    *)
(* stream is muted exactly while some scope mutes it, and is then what it was.      *)
EXTENDS Streams
CONSTANTS Threads, Rounds
VARIABLES S, mute, pc, left
vars == << S, mute, pc, left >>
T == 1..Threads
Before == [s \in Streams |-> "orig"]
Init == /\ S = Idle(Before) /\ pc = [t \in T |-> "idle"] /\ left = [t \in T |-> Rounds]
        /\ mute \in [T -> SUBSET Streams]
Go(t, from, to, st) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to] /\ S' = st /\ UNCHANGED << mute, left >>
One(t, s, f(_, _)) == IF s \in mute[t] THEN f(S, s) ELSE S
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ pc' = [pc EXCEPT ![t] = "out"] /\ \E m \in SUBSET Streams : mute' = [mute EXCEPT ![t] = m]
            /\ UNCHANGED S
Next == \E t \in T :
    \/ Begin(t)
    \/ Go(t, "out", "err", One(t, "out", EnterOne))
    \/ Go(t, "err", "body", One(t, "err", EnterOne))
    \/ Go(t, "body", "unerr", S)       \* returns, or fails
    \/ Go(t, "unerr", "unout", One(t, "err", LeaveOne))
    \/ Go(t, "unout", "idle", One(t, "out", LeaveOne))
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Next)
In(t, s) == s \in mute[t] /\ pc[t] \in (IF s = "out" THEN {"err", "body", "unerr", "unout"} ELSE {"body", "unerr"})
Exactly == \A s \in Streams :
    /\ S.n[s] = Cardinality({t \in T : In(t, s)})
    /\ S.cur[s] = IF S.n[s] > 0 THEN "null" ELSE "orig"
Quiet == (\A t \in T : pc[t] = "idle") => S = Idle(Before)
Muted == \A t \in T : pc[t] = "body" => \A s \in mute[t] : S.cur[s] = "null"
=============================================================================
