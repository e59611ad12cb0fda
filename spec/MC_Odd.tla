--------------------------------- MODULE MC_Odd ---------------------------------
(* Modules with odd members: adding them never panics, and gives bindings of what is   *)
(* next to the odd members, unless inspecting these raises an exception (C12).         *)
EXTENDS Cases, OddTexts
CONSTANT Depth
Code(text, may) == [s |-> "code", text |-> text, may |-> may]
Statements == Map(LAMBDA t : Code(t, FALSE), OkTexts) \o Map(LAMBDA t : Code(t, TRUE), RaisingTexts)
Fine0 == << Def("fine", << P("x", 1) >>), Class("Fine", << Method("m", "inst", << Self, P("a", 1) >>), PropRW("p", A0("int"), A0("int")) >>) >>
InPk(s) == ("pk" :> Pkg(Fine0 \o << s >>)) @@ ("pk.sub" :> Mod(<< Def("other", << >>) >>))
InSub(s) == ("pk" :> Pkg(Fine0)) @@ ("pk.sub" :> Mod(<< s, Def("other", << >>) >>)) @@ ("pk.tail" :> Mod(<< Val("v", "int") >>))
InStr(s) == FromStrCall("made", Mod(<< s >> \o Fine0))
Private0 == [Config0 EXCEPT !.private = TRUE]
Deps == [Config0 EXCEPT !.deps = TRUE]
Two(s, t) == ("pk" :> Pkg(<< s >> \o Fine0 \o << t >>)) @@ ("pk.sub" :> Mod(<< t, s >>))
CaseList == Numbered("odd", Map(LAMBDA s : Plain(InPk(s)), Statements) \o Map(LAMBDA s : Plain(InSub(s)), Statements)
    \o Map(LAMBDA s : Calls(InPk(Val("z", "int")), << InStr(s), ByName("pk") >>), Statements)
    \o Map(LAMBDA s : With(InPk(s), Private0), Statements) \o Map(LAMBDA s : With(InSub(s), Deps), Statements)
    \o (IF Depth = 1 THEN << >> ELSE Cross(LAMBDA s, t : Plain(Two(s, t)), Statements, Statements)))
Init == StartOne(CaseList)
FilesOf == [m \in DOMAIN W |-> W[m]] @@ [m \in {"made"} |-> IF case.calls[1].op = "str" THEN case.calls[1].file ELSE Mod(<< >>)]
May(m) == m \in DOMAIN FilesOf /\ \E i \in 1..Len(FilesOf[m].ss) : FilesOf[m].ss[i].s = "code" /\ FilesOf[m].ss[i].may
Concerned(p) == \E m \in DOMAIN FilesOf : Under(m, p) /\ May(m)
(* Adding the module (or generating) may fail because an exception was raised *)
Refuse ==
    /\ phase = "call" /\ stack = << >> /\ queue = << >> /\ \E i \in 1..Len(Call.ps) : Concerned(Call.ps[i])
    /\ phase' = "failed"
    /\ UNCHANGED << case, st, ci, queue, stack, pend, tree, emb, outs, facts >>
(* or the odd submodule is left out *)
LeaveOut ==
    /\ phase = "call" /\ stack # << >>
    /\ \E m \in stack[Len(stack)] : /\ May(m)
        /\ stack' = IF stack[Len(stack)] = {m} THEN SubSeq(stack, 1, Len(stack) - 1)
                    ELSE Append(SubSeq(stack, 1, Len(stack) - 1), stack[Len(stack)] \ {m})
    /\ UNCHANGED << case, st, ci, queue, pend, tree, emb, outs, phase, facts >>
Spec == Init /\ [][Next \/ Refuse \/ LeaveOut]_vars
(* Without something that raises, everything succeeds *)
Succeeds == Done /\ (\A m \in DOMAIN FilesOf : ~May(m)) => \A i \in 1..Len(outs) : outs[i] = "ok"
=============================================================================
