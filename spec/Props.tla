---------------------------------- MODULE Props ----------------------------------
(* The properties, stated about what the files of a world say (not about how the   *)
(* engine goes about it); TLC checks them on the model at the end of every history. *)
EXTENDS PyBindgen

Done == phase = "done"
AllOk == Done /\ \A i \in 1..Len(outs) : outs[i] = "ok"
HasFact(prefix) == \E f \in facts : StartsWith(f, prefix)
FactsOf(kind) == {f \in facts : StartsWith(f, kind \o "|")}

Added == UNION {Range(case.calls[i].ps) : i \in {i \in 1..Len(case.calls) : i <= Len(outs) /\ outs[i] = "ok"}}
Public(p) == \A i \in 1..Len(Segs(p)) : ~Private(Segs(p)[i]) /\ Segs(p)[i] \notin cfg.block
Requested(p) == \E a \in Added : Under(p, a)
FileNames(m) == {m.ss[i].n : i \in {i \in 1..Len(m.ss) : "n" \in DOMAIN m.ss[i]}}
(* the statement that binds n last *)
Binding(m, n) == m.ss[CHOOSE i \in 1..Len(m.ss) :
    /\ "n" \in DOMAIN m.ss[i] /\ m.ss[i].n = n
    /\ \A j \in (i + 1)..Len(m.ss) : "n" \notin DOMAIN m.ss[j] \/ m.ss[j].n # n]
PlainName(n) == HasRustName(n) /\ ~Private(n) /\ n \notin cfg.block /\ n \notin Forbidden

(* ---- well-formed Rust: no name twice in a scope, no path that leads nowhere ---- *)
KindOf(f) == Split(f, "|")[1]
PathOf(f) == LET p == Split(Split(f, "|")[2], "(")[1] IN
             IF KindOf(f) = "preludemod" THEN p \o "." \o Split(f, "|")[3] ELSE p
RsTypeItems == {f \in facts : KindOf(f) \in {"mod", "struct", "type", "preludemod"}}
RsValueItems == {f \in facts : KindOf(f) \in {"fn", "ctor", "static"}}
RsMethodItems == {f \in facts : KindOf(f) = "method"}
RsUseItems == {f \in facts : KindOf(f) = "use"}
AllDistinct(S) == Cardinality({PathOf(f) : f \in S}) = Cardinality(S)
RsUseTarget(f) == RPath(Split(f, "|")[3])
(* the local types that a signature mentions *)
Mentioned == UNION {LET q == Split(f, "@") IN
                    {LET t == q[i]
                         ends == {j \in 1..Len(t) : Ch(t, j) \in {",", ">", ")", "]"}}
                     IN IF ends = {} THEN t ELSE SubSeq(t, 1, Min(ends) - 1) : i \in 2..Len(q)}
                    : f \in {f \in facts : KindOf(f) = "sig" /\ HasChar(f, "@")}}
WellFormed == AllOk =>
    LET types == {PathOf(f) : f \in RsTypeItems}
        values == {PathOf(f) : f \in RsValueItems}
        uses == {PathOf(f) : f \in RsUseItems}
    IN /\ AllDistinct(RsTypeItems) /\ AllDistinct(RsValueItems) /\ AllDistinct(RsMethodItems) /\ AllDistinct(RsUseItems)
       /\ uses \cap (types \cup values) = {}
       /\ {RsUseTarget(f) : f \in RsUseItems} \subseteq types \cup values
       /\ Mentioned \subseteq types
=============================================================================
