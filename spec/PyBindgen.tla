-------------------------------- MODULE PyBindgen --------------------------------
(* The engine as a state machine: a history of calls that add modules, each of     *)
(* which imports, inspects and parses modules one after the other, and then the    *)
(* generation of bindings.                                                         *)
(*                                                                                 *)
(* A case is [id, world, cfg, calls, pre]: calls are [op, ps, file]                *)
(*   name / names   import and add the modules ps, one after the other             *)
(*   modules        import all of ps, then add them                                *)
(*   str            add module ps[1], whose source (file) is given                 *)
(* and pre are modules that are imported by someone else before all that.          *)
EXTENDS Engine, Python, Json

VARIABLES case,   \* the case that is executed
    st,           \* state of the Python interpreter
    ci,           \* number of the current call
    queue,        \* modules of the current call that have not been started
    stack,        \* submodules that wait for being imported and parsed (depth first)
    pend,         \* tree parsed by the current call
    tree, emb,    \* tree of the calls that succeeded, and the names of embedded modules
    outs,         \* outcomes of the calls
    phase, facts
vars == << case, st, ci, queue, stack, pend, tree, emb, outs, phase, facts >>

W == case.world
cfg == case.cfg
Call == case.calls[ci]

RECURSIVE ImportAll(_, _, _)
ImportAll(w, s, ps) ==
    IF ps = << >> \/ s.err THEN s ELSE ImportAll(w, ImportTop(w, s, Head(ps)), Tail(ps))
Forgive(s) == [s EXCEPT !.err = FALSE]

Start(c) ==
    /\ case = c
    /\ st = Forgive(ImportAll(c.world, Interp0, c.pre))
    /\ ci = 1 /\ queue = << >> /\ stack = << >> /\ pend = EmptyTree
    /\ tree = EmptyTree /\ emb = {} /\ outs = << >> /\ phase = "idle" /\ facts = {}

(* A module whose inspection raises an exception *)
Bomb(v) == v.doc = "<raises>" \/ \E a \in Bound(cfg, v) : a.k = "class" /\ Variant(a, v.name) = "class" /\ a.x.doc = "<raises>"

(* Modules can put something else in their place in sys.modules *)
Proper(s, m) == EntryOf(s, m) = Object("module", EntryOf(s, m).m, m, NoX)

(* Parses the whole submodule, for the sake of the one member that is lifted from it *)
RECURSIVE ParseWhole(_, _), LoadSubs(_, _, _), LiftAll(_, _, _)
ParseWhole(s, m) ==   \* m is loaded in s
    LET v == ModuleView(W, s, m)
        confl == Conflicts(cfg, v)
        s1 == LoadSubs(s, m, IF cfg.traverse THEN Submodules(cfg, v) ELSE {})
    IN [st |-> s1, node |-> LiftAll(s1, ParseModule(cfg, v), confl), bad |-> Bomb(v)]
LoadSubs(s, m, subs) ==
    IF subs = {} THEN s
    ELSE LET n == CHOOSE n \in subs : TRUE
             s1 == ImportTop(W, s, Dot(m, n))
         IN LoadSubs(IF s1.err \/ ~Proper(s1, Dot(m, n)) THEN Forgive(s1) ELSE ParseWhole(s1, Dot(m, n)).st, m, subs \ {n})
LiftAll(s, node, confl) ==
    IF confl = {} \/ ~cfg.traverse THEN node
    ELSE LET i == CHOOSE i \in confl : TRUE
             s1 == ImportTop(W, s, i.t)
             sub == ParseWhole(s1, Space(s1, i.t))
         IN LiftAll(s, IF s1.err \/ EntryOf(s1, i.t).k # "module" \/ sub.bad THEN node ELSE Lift(node, sub.node, i), confl \ {i})

(* Parses the loaded module m: its node joins the tree, its submodules wait *)
Parse(s, m) ==
    LET v == ModuleView(W, s, m)
        confl == Conflicts(cfg, v)
        subs == Submodules(cfg, v) \ {Leaf(i.t) : i \in confl}
    IN IF Bomb(v)
       THEN /\ phase' = "failed" /\ st' = s /\ UNCHANGED << pend, stack >>
       ELSE /\ pend' = MergeTrees(pend, m :> LiftAll(s, ParseModule(cfg, v), confl))
            /\ st' = s
            /\ stack' = IF ~cfg.traverse \/ subs = {} THEN stack
                        ELSE Append(stack, {Dot(m, n) : n \in subs})
            /\ UNCHANGED phase

Failed == outs' = Append(outs, "err")

Begin ==
    /\ phase = "idle" /\ ci <= Len(case.calls)
    /\ LET w == IF Call.op = "str" THEN (Call.ps[1] :> Call.file) @@ W ELSE W
           s == IF Call.op = "str" THEN Exec(w, st, Call.ps[1])
                ELSE IF Call.op = "modules" THEN ImportAll(W, st, Call.ps)
                ELSE st
       IN /\ st' = Forgive(s)
          /\ phase' = IF s.err THEN "failed" ELSE "call"
          /\ queue' = Call.ps
    /\ pend' = EmptyTree /\ stack' = << >>
    /\ UNCHANGED << case, ci, tree, emb, outs, facts >>

(* The next module of the call: import it (unless it was already) and parse it *)
NextModule ==
    /\ phase \in {"call", "deps"} /\ stack = << >> /\ queue # << >>
    /\ LET m == Head(queue)
           s == IF phase = "call" /\ Call.op = "str" THEN st ELSE ImportTop(W, st, m)
       IN IF s.err \/ EntryOf(s, m).k # "module" THEN /\ st' = Forgive(s) /\ phase' = "failed" /\ UNCHANGED << pend, stack >>
          ELSE Parse(s, Space(s, m))
    /\ queue' = Tail(queue)
    /\ UNCHANGED << case, ci, tree, emb, outs, facts >>

(* One of the submodules that wait: skipped if it cannot be imported *)
NextSubmodule ==
    /\ phase \in {"call", "deps"} /\ stack # << >>
    /\ LET top == stack[Len(stack)]
           below == SubSeq(stack, 1, Len(stack) - 1)
       IN \E m \in top :
            LET rest == IF top = {m} THEN below ELSE Append(below, top \ {m})
                s == ImportTop(W, st, m)
                v == ModuleView(W, s, m)
                confl == Conflicts(cfg, v)
                subs == Submodules(cfg, v) \ {Leaf(i.t) : i \in confl}
            IN IF s.err \/ ~Proper(s, m)   \* left out
               THEN st' = Forgive(s) /\ stack' = rest /\ UNCHANGED << pend, phase >>
               ELSE IF Bomb(v)
               THEN st' = s /\ phase' = "failed" /\ UNCHANGED << pend, stack >>
               ELSE /\ st' = s
                    /\ pend' = MergeTrees(pend, m :> LiftAll(s, ParseModule(cfg, v), confl))
                    /\ stack' = IF subs = {} THEN rest ELSE Append(rest, {Dot(m, n) : n \in subs})
                    /\ UNCHANGED phase
    /\ UNCHANGED << case, ci, queue, tree, emb, outs, facts >>

Commit ==
    /\ phase = "call" /\ stack = << >> /\ queue = << >>
    /\ tree' = MergeTrees(tree, pend)
    /\ emb' = IF Call.op = "str" THEN emb \cup {Call.ps[1]} ELSE emb
    /\ outs' = Append(outs, "ok")
    /\ ci' = ci + 1 /\ phase' = "idle" /\ pend' = EmptyTree
    /\ UNCHANGED << case, st, queue, stack, facts >>

Abort ==
    /\ phase = "failed" /\ ci <= Len(case.calls)
    /\ outs' = Append(outs, "err")
    /\ ci' = ci + 1 /\ phase' = "idle" /\ pend' = EmptyTree /\ stack' = << >> /\ queue' = << >>
    /\ UNCHANGED << case, st, tree, emb, facts >>

(* ---- generation ---- *)
ExternalImports == {i.o : i \in {i \in UNION {tree[p].imports : p \in DOMAIN tree} : ~Under(i.o, Root(i.t))}}
RECURSIVE LastModule(_, _, _)
LastModule(s, m, segs) ==
    IF segs = << >> \/ Head(segs) \notin DOMAIN s.env[m] THEN m
    ELSE LET o == s.env[m][Head(segs)] IN
         IF o.k = "module" THEN LastModule(s, o.an, Tail(segs)) ELSE m
Dependencies(s) ==
    LET roots == {o \in ExternalImports : Root(o) \in s.loaded}
        mods == {LastModule(s, Space(s, Root(o)), Tail(Segs(o))) : o \in {o \in roots : EntryOf(s, Root(o)).k = "module"}}
    IN {m \in mods : Allowed(cfg, m, "")}
Generate ==
    /\ phase = "idle" /\ ci > Len(case.calls)
    /\ IF DOMAIN tree = {}
       THEN /\ outs' = Append(outs, "err") /\ phase' = "done"
            /\ UNCHANGED << st, queue, pend >>
       ELSE LET s == Forgive(ImportAll(W, st, SetToSeq({Root(o) : o \in {o \in ExternalImports : Root(o) \in DOMAIN W}})))
            IN /\ st' = s
               /\ queue' = IF cfg.deps THEN SetToSeq(Dependencies(s)) ELSE << >>
               /\ pend' = EmptyTree
               /\ phase' = "deps" /\ UNCHANGED outs
    /\ UNCHANGED << case, ci, stack, tree, emb, facts >>

(* Ancestors of what was added appear as well, with nothing but their documentation *)
WithAncestors(s, t) ==
    LET anc == UNION {Ancestors(p) : p \in DOMAIN t} \ DOMAIN t
    IN MergeTrees(t, [p \in anc |-> NodeWithDoc(p, IF p \in s.loaded /\ s.info[p].doc # "<raises>" THEN s.info[p].doc ELSE "")])
(* The names of types win over modules, also over those that were asked for *)
Overwritten(t, p) == \E q \in PathPrefixes(p) : Parent(q) # "" /\ Parent(q) \in DOMAIN t
    /\ q \in AllTypes(cfg, Parent(q) :> t[Parent(q)])
Overwrite(t) == [p \in {p \in DOMAIN t : ~Overwritten(t, p)} |-> t[p]]
GenerateDone ==
    /\ phase = "deps" /\ stack = << >> /\ queue = << >>
    /\ LET t == MergeTrees(tree, pend)
           s == Forgive(ImportAll(W, st, SetToSeq({p \in UNION {Ancestors(q) : q \in DOMAIN t} : p \in DOMAIN W})))
           t2 == Overwrite(WithAncestors(s, t))
       IN /\ tree' = t2
          /\ facts' = Facts(cfg, t2, emb)
          /\ st' = s
    /\ outs' = Append(outs, "ok") /\ phase' = "done"
    /\ UNCHANGED << case, ci, queue, stack, pend, emb >>
GenerateFailed ==
    /\ phase = "failed" /\ ci > Len(case.calls)
    /\ outs' = Append(outs, "err") /\ phase' = "done"
    /\ UNCHANGED << case, st, ci, queue, stack, pend, tree, emb, facts >>

Next == Begin \/ NextModule \/ NextSubmodule \/ Commit \/ Abort
        \/ Generate \/ GenerateDone \/ GenerateFailed

(* Printed for the conformance driver: what the engine has to produce *)
Emitted == phase = "done" =>
    PrintT("@@" \o ToJson([id |-> case.id, outs |-> outs, facts |-> facts]))
================================================================================
