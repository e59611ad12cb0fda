---------------------------------- MODULE Vocab ----------------------------------
(* Vocabulary for writing worlds                                                    *)
EXTENDS Engine, Python

P(n, k) == [n |-> n, k |-> k, t |-> NoAnn, d |-> FALSE]
PT(n, k, t) == [n |-> n, k |-> k, t |-> t, d |-> FALSE]
PD(n, k, t) == [n |-> n, k |-> k, t |-> t, d |-> TRUE]
(* with a default value *)
PV(n, k, t, e) == [n |-> n, k |-> k, t |-> t, d |-> TRUE, e |-> e]
Def(n, ps) == [s |-> "def", n |-> n, ps |-> ps, ret |-> NoAnn, doc |-> ""]
DefT(n, ps, ret) == [s |-> "def", n |-> n, ps |-> ps, ret |-> ret, doc |-> ""]
DefD(n, doc) == [s |-> "def", n |-> n, ps |-> << >>, ret |-> NoAnn, doc |-> doc]
Class(n, body) == [s |-> "class", n |-> n, doc |-> "", base |-> "", body |-> body]
SubClass(n, base, body) == [s |-> "class", n |-> n, doc |-> "", base |-> base, body |-> body]
Val(n, e) == [s |-> "val", n |-> n, e |-> e]
Of(kind, n, of) == [s |-> kind, n |-> n, of |-> of]
TVar(n) == [s |-> "tvar", n |-> n]
TAlias(n) == [s |-> "talias", n |-> n]
TMade(n, e) == [s |-> "talias", n |-> n, e |-> e]
Lambda(n, ps) == [s |-> "lambda", n |-> n, ps |-> ps]
Closure(n, ps) == [s |-> "closure", n |-> n, ps |-> ps]
BoundM(n) == [s |-> "boundm", n |-> n]
AllOf(names) == [s |-> "all", names |-> names]
From(of, name, n) == [s |-> "from", of |-> of, name |-> name, n |-> n]
Star(of) == [s |-> "star", of |-> of]
ImportAs(of, n) == [s |-> "import", of |-> of, n |-> n]
Try(of) == [s |-> "try", of |-> of]
Virtual(n, of, ss) == [s |-> "virt", n |-> n, of |-> of, file |-> [pkg |-> FALSE, doc |-> "", ss |-> ss]]
Shim(of) == [s |-> "shim", of |-> of]
Do(kind) == [s |-> kind]
Bombed(n) == [s |-> "bomb", n |-> n]

Method(n, c, ps) == [b |-> "def", n |-> n, c |-> c, ps |-> ps, ret |-> NoAnn, doc |-> ""]
MethodT(n, c, ps, ret) == [b |-> "def", n |-> n, c |-> c, ps |-> ps, ret |-> ret, doc |-> ""]
Prop(n, ret) == [b |-> "prop", n |-> n, ret |-> ret, doc |-> "", set |-> FALSE, st |-> NoAnn, sdoc |-> ""]
PropRW(n, ret, st_) == [b |-> "prop", n |-> n, ret |-> ret, doc |-> "", set |-> TRUE, st |-> st_, sdoc |-> ""]
(* a property whose setter has the given parameters *)
PropSet(n, ret, ps) == [b |-> "prop", n |-> n, ret |-> ret, doc |-> "", set |-> TRUE, st |-> NoAnn, sdoc |-> "", sps |-> ps]
(* m, made by another decorator of the same kind *)
Deco(m, d) == ("deco" :> d) @@ m
Attr(n, e) == [b |-> "val", n |-> n, e |-> e]
Nested(n) == [b |-> "nested", n |-> n]
Self == P("self", 1)
Cls == P("cls", 1)

Pkg(ss) == [pkg |-> TRUE, doc |-> "", ss |-> ss]
Mod(ss) == [pkg |-> FALSE, doc |-> "", ss |-> ss]
NsPkg == [pkg |-> TRUE, doc |-> "", ss |-> << >>, ns |-> TRUE]
Skeleton == ("pk" :> Pkg(<< >>)) @@ ("pk.a" :> Mod(<< >>)) @@ ("pk.sub" :> Pkg(<< >>))
    @@ ("pk.sub.deep" :> Mod(<< >>)) @@ ("pk.sub.b" :> Mod(<< >>))
At(world, m, ss) == [world EXCEPT ![m].ss = ss]

ByName(p) == [op |-> "name", ps |-> << p >>]
CallNames(ps) == [op |-> "names", ps |-> ps]
CallModule(p) == [op |-> "module", ps |-> << p >>]
CallModules(ps) == [op |-> "modules", ps |-> ps]
FromStrCall(p, file) == [op |-> "str", ps |-> << p >>, file |-> file]
Case(id, world, c, calls) == [id |-> id, world |-> world, cfg |-> c, calls |-> calls, pre |-> << >>]

(* ---- lists of cases -------------------------------------------------------------- *)
Map(f(_), ss) == [i \in 1..Len(ss) |-> f(ss[i])]
Cross(f(_, _), ss, ts) ==
    [i \in 1..(Len(ss) * Len(ts)) |->
        f(ss[((i - 1) \div Len(ts)) + 1], ts[((i - 1) % Len(ts)) + 1])]
Cross3(f(_, _, _), ss, ts, us) ==
    [i \in 1..(Len(ss) * Len(ts) * Len(us)) |->
        LET j == i - 1 IN
        f(ss[(j \div (Len(ts) * Len(us))) + 1], ts[((j \div Len(us)) % Len(ts)) + 1], us[(j % Len(us)) + 1])]
(* Sequences over a set (as a sequence), of length up to n *)
RECURSIVE Words(_, _)
Words(as, n) == IF n = 0 THEN << << >> >>
    ELSE LET shorter == Words(as, n - 1) IN
         << << >> >> \o Cross(LAMBDA w, a : << a >> \o w, shorter, as)
(* Numbers the cases of a list *)
Numbered(prefix, cs) == [i \in 1..Len(cs) |-> [cs[i] EXCEPT !.id = prefix \o "-" \o ToString(i)]]
=============================================================================
