--------------------------------- MODULE MC_Routes --------------------------------
(* The ways to get bindings of a list of modules, one after the other in the same    *)
(* directory: the command-line tool (to its output, or to a file), Codegen::build    *)
(* (to a file), and the macro import_python! (C14).                                  *)
(* fs maps the places for output to what is there: "absent", "old" (another file,    *)
(* longer than any bindings), "short" (a shorter one), "like cli" and "like raw" (as *)
(* long as the bindings of list 1, but different), "blocked" (it cannot be           *)
(* written there), or "cli:i" and "build:i", the bindings of list i in that form.    *)
EXTENDS RouteLists
CONSTANT Depth
VARIABLES fs, dirs, hist, deep,
    ok   \* ok[i]: can the modules of list i be bound?
rvars == << fs, dirs, hist, deep, ok >>
IsOk(i) == ok[i]
Places == << "out.rs", "new/dir/out.rs", "old.rs", "short.rs", "link.rs", "file/out.rs", "folder", "with space/\"é\".rs", "like.rs", "alike.rs" >>
Fs0 == [p \in Range(Places) |-> CASE p \in {"old.rs", "link.rs"} -> "old" [] p = "short.rs" -> "short" [] p = "like.rs" -> "like cli" [] p = "alike.rs" -> "like raw"
                                  [] p \in {"file/out.rs", "folder"} -> "blocked" [] OTHER -> "absent"]
Needs(p) == CASE p = "new/dir/out.rs" -> "new/dir" [] p = "with space/\"é\".rs" -> "with space" [] OTHER -> ""
Op(route, place, list, form) == [route |-> route, place |-> place, list |-> list, form |-> form]
All == 1..Len(Lists)
Ops1 == {Op("stdout", "", l, f) : l \in All, f \in 1..3} \cup {Op("macro", "", l, 1) : l \in {l \in All : Len(Lists[l]) = 1}}
    \cup {Op(r, p, l, 1) : r \in {"file", "build"}, p \in Range(Places), l \in All}
    \cup {Op("file", p, l, f) : p \in {"out.rs", "new/dir/out.rs"}, l \in {1, 4, 10}, f \in 2..3}
Few == {"out.rs", "new/dir/out.rs", "old.rs", "link.rs"}
Ops2 == {Op(r, p, l, 1) : r \in {"file", "build"}, p \in Few, l \in IF Depth = 2 THEN {1, 8, 11} ELSE {1, 11}}
    \cup {Op("stdout", "", 1, 1)}
InitEngine == case = 0 /\ st = 0 /\ ci = 0 /\ queue = 0 /\ stack = 0 /\ pend = 0 /\ tree = 0 /\ emb = 0 /\ outs = 0 /\ phase = "routes" /\ facts = {}
Init == InitEngine /\ fs = Fs0 /\ dirs = {} /\ hist = << >> /\ deep \in BOOLEAN /\ ok = OkTable
Content(op) == (IF op.route = "build" THEN "build:" ELSE "cli:") \o ToString(op.list)
Step(op) ==
    LET fine == IsOk(op.list)
        made == Needs(op.place)
        there == made = "" \/ made \in dirs
        writes == fine /\ op.route \in {"file", "build"} /\ fs[op.place] # "blocked" /\ (op.route = "file" \/ there)
        good == IF op.route \in {"stdout", "macro"} THEN fine ELSE writes
        fs2 == IF writes THEN [fs EXCEPT ![op.place] = Content(op)] ELSE fs
    IN /\ fs' = fs2
       /\ dirs' = IF writes /\ op.route = "file" /\ made # "" THEN dirs \cup {made} ELSE dirs
       /\ hist' = Append(hist, [op |-> op, good |-> good, fs |-> fs2])
Next2 == /\ \E op \in (IF deep THEN Ops2 ELSE Ops1) : Step(op)
         /\ Len(hist) < (IF deep THEN Depth ELSE 1)
         /\ UNCHANGED << vars, deep, ok >>
Spec == Init /\ [][Next2]_<< vars, rvars >>
Told_ == (Len(hist) = (IF deep THEN Depth ELSE 1)) => PrintT("%%" \o ToJson([hist |-> hist]))
(* C14: success leaves the bindings where they were asked for, failure leaves everything as it was *)
Before(i) == IF i = 1 THEN Fs0 ELSE hist[i - 1].fs
Delivered == \A i \in 1..Len(hist) : LET h == hist[i] IN
    IF h.good THEN /\ IsOk(h.op.list)
                   /\ h.op.place # "" => h.fs[h.op.place] = Content(h.op)
                   /\ \A p \in Range(Places) \ {h.op.place} : h.fs[p] = Before(i)[p]
    ELSE h.fs = Before(i)
Reported == \A i \in 1..Len(hist) : ~IsOk(hist[i].op.list) => ~hist[i].good
Makes == \A i \in 1..Len(hist) : LET h == hist[i] IN
    h.op.route = "file" /\ IsOk(h.op.list) /\ Fs0[h.op.place] # "blocked" => h.good
=============================================================================
