-------------------------------- MODULE MC_Streams -------------------------------
(* Threads that bind modules whose code prints, stops at gates (while it is         *)
(* imported, and while it is parsed), fails, or puts its own object in place of a   *)
(* stream. A schedule lets one thread run from one gate to the next.                *)
(* A call is [op, mute, fail, swap]: op = "name" | "str" | "module" | "deps"        *)
(* (imported before it is given to the engine; parsed as a dependency), or "claim"  *)
(* and "parent" (imported while bindings are generated: it is the dependency that a *)
(* class claims to be from, or the parent package of a module from source code).    *)
EXTENDS Streams, Json, SequencesExt
CONSTANT Depth
VARIABLES plan, first, S, at, k, cap, hist
vars == << plan, first, S, at, k, cap, hist >>
T == 1..Len(plan)

Call(op, mute, fail) == [op |-> op, mute |-> mute, fail |-> fail, swap |-> {}]
Mutes == << {}, {"out"}, {"err"}, {"out", "err"} >>
Both == {"out", "err"}
Fails == << "no", "import", "parse" >>
Simple == {Call("name", m, f) : m \in Range(Mutes), f \in Range(Fails)}
Routes == {Call(op, m, f) : op \in {"str", "module", "deps"}, m \in {{}, {"out"}, Both}, f \in Range(Fails)}
Late == {Call("claim", m, f) : m \in {{}, {"out"}, Both}, f \in Range(Fails)} \cup {Call("parent", m, f) : m \in {{}, {"err"}, Both}, f \in {"no"}}
Swaps == {[Call("name", m, f) EXCEPT !.swap = w] : m \in Range(Mutes), f \in Range(Fails), w \in {{"out"}, {"err"}, Both}}
Orig == [s \in Streams |-> "orig"]
Plain == [plan : {<< << c >> >> : c \in Simple \cup Routes \cup Late \cup Swaps}, first : {Orig}]
    \cup [plan : {<< << c, d >> >> : c \in Simple, d \in {Call("name", m, "no") : m \in Range(Mutes)}}, first : {Orig}]
    \cup [plan : {<< << Call("name", m, f) >> >> : m \in Range(Mutes), f \in Range(Fails)},
          first : {[out |-> "none", err |-> "none"], [out |-> "orig", err |-> "none"]}]
Index(m) == CHOOSE i \in 1..4 : Mutes[i] = m
Pairs == [plan : {<< << c >>, << d >> >> : c \in Simple, d \in {d \in Simple : d.fail # "import"}}, first : {Orig}]
    \cup [plan : {<< << c >>, << Call("name", Both, "no") >> >> : c \in {c \in Routes \cup Late : c.mute # {}}}, first : {Orig}]
Deep == [plan : {<< << c >>, << d >> >> : c \in Simple \cup Routes \cup Late, d \in Simple \cup Routes \cup Late}, first : {Orig}]
    \cup [plan : {<< << c, d >>, << e >> >> : c \in {c \in Simple : c.mute \in {{"out"}, Both}}, d \in {Call("name", Both, "no")}, e \in {Call("name", m, f) : m \in {{"out"}, Both}, f \in Range(Fails)}}, first : {Orig}]
    \cup [plan : {<< << Call("name", m1, f) >>, << Call("name", m2, "no") >>, << Call("name", m3, "parse") >> >> :
                    m1 \in {{"out"}, Both}, m2 \in {{"err"}, Both}, m3 \in {{"out"}}, f \in {"no", "import"}}, first : {Orig}]
Plans == SetToSeq(Plain \cup (IF Depth = 1 THEN Pairs ELSE Pairs \cup Deep))

Init == \E i \in 1..Len(Plans) :
    /\ plan = Plans[i].plan /\ first = Plans[i].first
    /\ S = Idle(Plans[i].first)
    /\ at = [t \in 1..Len(plan) |-> "-"] /\ k = [t \in 1..Len(plan) |-> 1]
    /\ cap = [s \in Streams |-> << >>] /\ hist = << >>

Token(t, gate, pos) == ToString(t) \o ToString(k[t]) \o gate \o pos
(* What is written in state st ends up in the capture, if nobody mutes the stream *)
Write(c, st, token) == [s \in Streams |-> IF st.cur[s] = "orig" THEN Append(c[s], token) ELSE c[s]]
Swap(st, which) == [st EXCEPT !.cur = [s \in Streams |-> IF s \in which THEN "own" ELSE @[s]]]

(* Lets thread t run until its next gate, or the end of its call *)
Step(t) ==
    /\ k[t] <= Len(plan[t])
    /\ LET c == plan[t][k[t]]
           scoped == c.op # "module"
           i1 == IF scoped THEN Enter(S, c.mute) ELSE S
           i2 == Swap(S, c.swap)
           i3 == IF scoped THEN Leave(i2, c.mute) ELSE i2
           p1 == Enter(i3, c.mute)
           p2 == Leave(S, c.mute)
           go(st, ca, where, out) ==
               /\ S' = st /\ cap' = ca /\ at' = [at EXCEPT ![t] = where]
               /\ k' = [k EXCEPT ![t] = IF where = "-" THEN @ + 1 ELSE @]
               /\ hist' = Append(hist, [t |-> t, ev |-> out, out |-> st.cur["out"], err |-> st.cur["err"], cap |-> ca])
       IN CASE at[t] = "-" -> go(i1, Write(cap, i1, Token(t, "i", "b")), "i", "i")
            [] at[t] = "i" ->
                 LET ca == Write(cap, S, Token(t, "i", "a")) IN
                 \* what generating bindings cannot import is left out
                 IF c.op = "parent" \/ (c.op = "claim" /\ c.fail = "import") THEN go(i3, ca, "-", "ok")
                 ELSE IF c.fail = "import" THEN go(i3, ca, "-", "err")
                 ELSE go(p1, Write(ca, p1, Token(t, "p", "b")), "p", "p")
            [] OTHER ->
                 go(p2, Write(cap, S, Token(t, "p", "a")), "-", IF c.fail = "parse" THEN "err" ELSE "ok")
    /\ UNCHANGED << plan, first >>
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars

Finished == \A t \in T : k[t] > Len(plan[t])
Emitted == Finished => PrintT("%%" \o ToJson([plan |-> plan, first |-> first, hist |-> hist]))
(* C11 *)
Scoped(t) == at[t] = "p" \/ (at[t] = "i" /\ plan[t][k[t]].op # "module")
Mute(t) == plan[t][k[t]].mute
NoSwaps == \A t \in T : \A j \in 1..Len(plan[t]) : plan[t][j].swap = {}
Muted == \A s \in Streams : (NoSwaps /\ \E t \in T : Scoped(t) /\ s \in Mute(t)) => S.cur[s] = "null"
Untouched == \A s \in Streams :
    (NoSwaps /\ ~\E t \in T : Scoped(t) /\ s \in Mute(t)) => S.cur[s] = first[s]
(* even if the module puts something else in place of a muted stream while it is imported *)
Restored == Finished => \A s \in Streams :
    (\A t \in T : \A j \in 1..Len(plan[t]) : s \in plan[t][j].swap => s \in plan[t][j].mute) => S.cur[s] = first[s]
=============================================================================
