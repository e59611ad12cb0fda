--------------------------------- MODULE Runtime ---------------------------------
(* Using the bindings: a Rust caller in a process whose interpreter has imported    *)
(* nothing yet. Each step calls one generated item; what it does to the interpreter  *)
(* (imports, attributes, calls received by Python) and returns is the model of that  *)
(* Python operation itself: bindings add nothing to it.                              *)
(*                                                                                  *)
(* A scenario is [id, world, menu, depth, line]: the steps that may be taken, in any *)
(* order up to depth (or, if line is set, in the order of the menu).                 *)
(* Functions of the world carry a tag and what they do (how): report their own name, *)
(* echo parameter p, or raise; see driver/pylib/vlog.py.                             *)
EXTENDS Vocab, Json

VARIABLES sc,      \* the scenario
    it,            \* interpreter (spec/Python.tla)
    store,         \* attributes that were stored: key |-> value
    objs,          \* instances that were constructed: [m, c, dict]
    hist           \* steps taken: [op, log, res]
rvars == << sc, it, store, objs, hist >>
RW == sc.world

(* ---- values ---------------------------------------------------------------------- *)
(* [v |-> kind, s |-> Python text of a scalar, xs |-> elements]                       *)
V(k, s) == [v |-> k, s |-> s, xs |-> << >>]
VX(k, xs) == [v |-> k, s |-> "", xs |-> xs]
VInt(s) == V("int", s)
VStr(s) == V("str", s)        \* s: as Python shows it, with quotes
VNone == V("None", "None")
Absent == V("absent", "")     \* no **kwargs
VObj(m, c, i) == [v |-> "obj", s |-> "<" \o m \o "." \o c \o " " \o ToString(i) \o ">", xs |-> << >>, i |-> i]
RECURSIVE Canon(_)
Canon(v) ==
    LET xs == [i \in 1..Len(v.xs) |-> Canon(v.xs[i])]
        pairs == [i \in 1..(Len(xs) \div 2) |-> xs[2 * i - 1] \o ": " \o xs[2 * i]]
    IN CASE v.v = "list" -> "[" \o Join(xs, ", ") \o "]"
         [] v.v = "tuple" -> "(" \o Join(xs, ", ") \o ")"
         [] v.v \in {"set", "frozenset"} -> v.v \o "{" \o Join(xs, ", ") \o "}"      \* elements in order of their text
         [] v.v = "dict" -> "{" \o Join(pairs, ", ") \o "}"
         [] v.v \in {"bytes", "bytearray"} -> v.v \o "[" \o Join(xs, ", ") \o "]"
         [] OTHER -> v.s
(* How Rust shows the value it got, if the result has the type own *)
Balanced(s) == Count(s, "<") + Count(s, "(") <= Count(s, ">") + Count(s, ")")
RECURSIVE Joined(_, _)
Joined(ps, i) == IF i >= Len(ps) THEN ps
    ELSE IF Balanced(ps[i]) THEN Joined(ps, i + 1)
    ELSE Joined([j \in 1..(Len(ps) - 1) |-> IF j < i THEN ps[j] ELSE IF j = i THEN ps[i] \o "," \o ps[i + 1] ELSE ps[j + 1]], i)
Commas(s) == Joined(Split(s, ","), 1)
TypeArgs(own, head) == Commas(Inner(own, head \o "<", ">"))
RECURSIVE InRust(_, _)
InRust(v, own) ==
    LET sub(i, t) == InRust(v.xs[i], t) IN
    CASE Wraps(own, "Option<", ">") -> IF v = VNone THEN "None" ELSE InRust(v, Inner(own, "Option<", ">"))
      [] Wraps(own, "Vec<", ">") -> "[" \o Join([i \in 1..Len(v.xs) |-> sub(i, Inner(own, "Vec<", ">"))], ", ") \o "]"
      [] Wraps(own, "HashSet<", ">") -> "{" \o Join([i \in 1..Len(v.xs) |-> sub(i, Inner(own, "HashSet<", ">"))], ", ") \o "}"
      [] Wraps(own, "HashMap<", ">") ->
            LET a == TypeArgs(own, "HashMap") IN
            "{" \o Join([i \in 1..(Len(v.xs) \div 2) |-> sub(2 * i - 1, a[1]) \o ": " \o sub(2 * i, a[2])], ", ") \o "}"
      [] Wraps(own, "(", ")") ->
            LET a == Commas(Inner(own, "(", ")")) IN
            "(" \o Join([i \in 1..Len(v.xs) |-> sub(i, a[i])], ", ") \o ")"
      [] OTHER -> Canon(v)

(* the exception if the value has another type than own, which is a scalar type *)
Misfit(v, own) ==
    CASE own \in {"i64", "f64", "bool", "String"} /\ v.v = "None" -> "TypeError"
      [] own = "i64" /\ v.v = "bigint" -> "OverflowError"
      [] own \in {"i64", "f64"} /\ v.v \in {"str", "list"} -> "TypeError"
      [] own = "String" /\ v.v \in {"int", "bytes"} -> "TypeError"
      [] own = "bool" /\ v.v = "int" -> "TypeError"
      [] OTHER -> ""
(* initial values of statements  n = ... *)
ValOf(e) ==
    CASE e = "int" -> VInt("1") [] e = "str" -> VStr("'s'") [] e = "bool" -> V("bool", "True")
      [] e = "float" -> V("float", "1.5") [] e = "None" -> VNone [] e = "list" -> VX("list", << VInt("1") >>)
      [] e = "dict" -> VX("dict", << VStr("'a'"), VInt("1") >>) [] e = "tuple" -> VX("tuple", << VInt("1"), VInt("2") >>)
      [] e = "set" -> VX("set", << VInt("1") >>) [] OTHER -> V("other", e)

(* ---- worlds whose functions report what they are called with ------------------------- *)
Hit(tag, how) == "return __import__('vlog').hit('" \o tag \o "', '" \o how \o "')"
Told(s, tag, how) == s @@ [code |-> Hit(tag, how), tag |-> tag, how |-> how]
LDef(n, ps) == Told(Def(n, ps), n, "name")
LDefHow(n, ps, how) == Told(Def(n, ps), n, how)
LDefT(n, ps, ret, how) == Told(DefT(n, ps, ret), n, how)
LMethod(class, n, c, ps) == Told(Method(n, c, ps), class \o "." \o n, IF n = "__init__" THEN "none" ELSE "name")
LMethodHow(class, n, c, ps, how) == Told(Method(n, c, ps), class \o "." \o n, how)
LMethodT(class, n, c, ps, ret, how) == Told(MethodT(n, c, ps, ret), class \o "." \o n, how)
LGlobal(n, variable, value) == Told(Def(n, << >>), n, "@" \o variable) @@ [value |-> value]
LLambda(n, ps) == Told(Lambda(n, ps), n, "name")
LClosure(n, ps) == Told(Closure(n, ps), n, "name")

(* the statement that binds n last in module m; member n of class c of module m, and where it is from *)
Stmt(m, n) == RW[m].ss[CHOOSE i \in 1..Len(RW[m].ss) :
    /\ "n" \in DOMAIN RW[m].ss[i] /\ RW[m].ss[i].n = n
    /\ \A j \in (i + 1)..Len(RW[m].ss) : "n" \notin DOMAIN RW[m].ss[j] \/ RW[m].ss[j].n # n]
OwnMember(m, c, n) == {i \in 1..Len(Stmt(m, c).body) : Stmt(m, c).body[i].n = n}
RECURSIVE HasMember(_, _, _), TheMember(_, _, _)
HasMember(m, c, n) == OwnMember(m, c, n) # {} \/ (Stmt(m, c).base # "" /\ HasMember(m, Stmt(m, c).base, n))
TheMember(m, c, n) == IF OwnMember(m, c, n) # {} THEN Stmt(m, c).body[Max(OwnMember(m, c, n))]
                      ELSE TheMember(m, Stmt(m, c).base, n)

(* ---- the interpreter ------------------------------------------------------------------ *)
(* (nopath: no module of the world can be found, but those that were embedded are loaded) *)
Imported(m) == IF ~sc.nopath THEN ImportTop(RW, it, m) ELSE IF m \in it.loaded THEN it ELSE Fail(it)
(* What the name n of module m is bound to, after importing m: the module and name it was defined as *)
Target(m, n) == Imported(m).env[m][n]
ObjCanon(i) == "<" \o objs[i].m \o "." \o objs[i].c \o " " \o ToString(i) \o ">"
ArgCanon(v) == IF v.v = "absent" THEN "{}" ELSE Canon(v)
(* A keyword-only parameter is not overridden by an entry of **kwargs of the same name *)
Unnamed(ps, x) == LET named == {"'" \o ps[i].n \o "'" : i \in {i \in 1..Len(ps) : ps[i].k = 3}} IN
    FlattenSeq([i \in 1..(Len(x) \div 2) |-> IF x[2 * i - 1].s \in named THEN << >> ELSE << x[2 * i - 1], x[2 * i] >>])
Arrived(ps, args, i) == ArgCanon(IF ps[i].k = 4 /\ args[i].v = "dict" THEN [args[i] EXCEPT !.xs = Unnamed(ps, @)] ELSE args[i])
Received(ps, args) == [n \in {ps[i].n : i \in 1..Len(ps)} |-> Arrived(ps, args, CHOOSE i \in 1..Len(ps) : ps[i].n = n)]
(* What comes back from a function with these parameters. A value that the result type cannot hold is an error. *)
Outcome(m, s, ps, args) ==
    CASE StartsWith(s.how, "@") -> "ok " \o s.value     \* a variable of the module
      [] s.how = "name" -> "ok '" \o m \o "." \o s.tag \o "'"
      [] s.how = "raise" -> "err Boom " \o m \o "." \o s.tag
      [] s.how = "none" -> "ok None"
      [] OTHER -> LET i == CHOOSE i \in 1..Len(ps) : ps[i].n = s.how
                      own == OwnedRs(FromView(View(s.ret, Imported(m).env[m])), << >>)
                  IN IF s.ret.a = "" \/ args[i].v = "absent" THEN "ok " \o ArgCanon(args[i])
                     ELSE IF Misfit(args[i], own) = "" THEN "ok " \o InRust(args[i], own) ELSE "err " \o Misfit(args[i], own)
Entry(m, s, given) == << [f |-> m \o "." \o s.tag, a |-> given] >>

Took(op, log, res) == hist' = Append(hist, [op |-> op, log |-> log, res |-> res])
CallFn(op) ==
    LET o == Target(op.m, op.n)
        s == IF o.an = "<lambda>" THEN Stmt(o.m, op.n) ELSE Stmt(o.m, o.an)
    IN /\ it' = Imported(op.m)
       /\ Took(op, Entry(o.m, s, Received(s.ps, op.args)), Outcome(o.m, s, s.ps, op.args))
       /\ UNCHANGED << store, objs >>
(* K(...): the object exists even if __init__ was not given any parameter *)
New(op) ==
    LET s == TheMember(op.m, op.c, "__init__")
        i == Len(objs) + 1
        self == "<" \o op.m \o "." \o op.c \o " " \o ToString(i) \o ">"
    IN /\ it' = Imported(op.m)
       /\ objs' = IF s.how = "raise" THEN objs ELSE Append(objs, [m |-> op.m, c |-> op.c])
       /\ Took(op, Entry(op.m, s, ("self" :> IF s.how = "raise" THEN "<new>" ELSE self) @@ Received(Tail(s.ps), op.args)),
               IF s.how = "raise" THEN "err Boom " \o op.m \o "." \o s.tag ELSE "ok " \o self)
       /\ UNCHANGED store
StaticCall(op) ==
    LET s == TheMember(op.m, op.c, op.n)
        ps == IF s.c = "class" THEN Tail(s.ps) ELSE s.ps
        cls == IF s.c = "class" THEN (s.ps[1].n :> "<class " \o op.m \o "." \o op.c \o ">") ELSE << >>
    IN /\ it' = Imported(op.m)
       /\ Took(op, Entry(op.m, s, cls @@ Received(ps, op.args)), Outcome(op.m, s, ps, op.args))
       /\ UNCHANGED << store, objs >>
Stored(k, default) == IF k \in DOMAIN store THEN store[k] ELSE default
ModKey(m, n) == m \o ":" \o n
ObjKey(i, n) == "#" \o ToString(i) \o ":" \o n
ClassKey(m, c, n) == m \o "." \o c \o ":" \o n
(* value of attribute n as class c has it: stored there, defined there, or as its base has it *)
RECURSIVE ClassValue(_, _, _)
ClassValue(m, c, n) ==
    IF ClassKey(m, c, n) \in DOMAIN store THEN store[ClassKey(m, c, n)]
    ELSE IF OwnMember(m, c, n) # {} THEN ValOf(TheMember(m, c, n).e)
    ELSE ClassValue(m, Stmt(m, c).base, n)
(* value of attribute n of object i *)
ObjValue(i, n) ==
    LET o == objs[i]
        s == TheMember(o.m, o.c, n)
    IN IF ObjKey(i, n) \in DOMAIN store THEN store[ObjKey(i, n)]
       ELSE IF s.b = "prop" THEN VNone ELSE ClassValue(o.m, o.c, n)
CallMethod(op) ==   \* op.n is "__call__" for the call operator
    LET o == objs[op.obj]
        s == TheMember(o.m, o.c, op.n)
    IN /\ Took(op, Entry(o.m, s, (s.ps[1].n :> ObjCanon(op.obj)) @@ Received(Tail(s.ps), op.args)),
               IF StartsWith(s.how, ".") THEN "ok " \o ArgCanon(ObjValue(op.obj, DropPrefix(s.how, "."))) ELSE Outcome(o.m, s, Tail(s.ps), op.args))
       /\ UNCHANGED << it, store, objs >>
GetterType(i, n) ==
    LET s == TheMember(objs[i].m, objs[i].c, n) IN
    OwnedRs(IF s.b = "prop" THEN FromView(View(s.ret, it.env[objs[i].m])) ELSE FromView(ValueType(s.e)), << >>)
(* a getter whose type does not allow None fails on it *)
Shown(v, own) == IF v = VNone /\ own # "Any" /\ ~StartsWith(own, "Option<") THEN "err TypeError" ELSE "ok " \o InRust(v, own)
Get(op) ==
    /\ it' = Imported(op.m)
    /\ Took(op, << >>, Shown(Stored(ModKey(op.m, op.n), ValOf(Stmt(op.m, op.n).e)), OwnedRs(FromView(ValueType(Stmt(op.m, op.n).e)), << >>)))
    /\ UNCHANGED << store, objs >>
Set(op) ==
    /\ it' = Imported(op.m)
    /\ store' = (ModKey(op.m, op.n) :> op.args[1]) @@ store
    /\ Took(op, << >>, "ok ()") /\ UNCHANGED objs
ObjGet(op) ==
    /\ Took(op, << >>, Shown(ObjValue(op.obj, op.n), GetterType(op.obj, op.n)))
    /\ UNCHANGED << it, store, objs >>
ObjSet(op) ==
    /\ store' = (ObjKey(op.obj, op.n) :> op.args[1]) @@ store
    /\ Took(op, << >>, "ok ()") /\ UNCHANGED << it, objs >>
(* Python code stores attributes without the bindings; it has to import the module as well *)
Poke(op) ==
    /\ it' = Imported(op.m)
    /\ store' = (IF op.c = "" THEN ModKey(op.m, op.n) ELSE ClassKey(op.m, op.c, op.n)) :> op.args[1] @@ store
    /\ Took(op, << >>, "ok ()") /\ UNCHANGED objs

(* The source of module m is embedded: it is run (again) and m can be imported. Parents that do not exist are made up. *)
RECURSIVE MakeUp(_, _)
MakeUp(s, ps) == IF ps = {} THEN s
    ELSE LET p == CHOOSE p \in ps : TRUE IN
         MakeUp(IF p \in s.loaded THEN s ELSE [s EXCEPT !.loaded = @ \cup {p}, !.env = (p :> NoEnv) @@ @], ps \ {p})
ClassesOf(m) == {RW[m].ss[i].n : i \in {i \in 1..Len(RW[m].ss) : RW[m].ss[i].s = "class"}}
StoredIn(m) == {k \in DOMAIN store : \E c \in {m} \cup {m \o "." \o c : c \in ClassesOf(m)} : StartsWith(k, c \o ":")}
Embed(op) ==
    /\ it' = Exec(RW, MakeUp(it, PathPrefixes(op.m) \ {op.m}), op.m)
    /\ store' = [k \in DOMAIN store \ StoredIn(op.m) |-> store[k]]
    /\ Took(op, << >>, "ok ()") /\ UNCHANGED objs
Unknown_(op) == /\ Took(op, << >>, "err missing") /\ UNCHANGED << it, store, objs >>
(* an attribute that the module does not have *)
Lacks(op) == CASE op.op \in {"new", "static"} \/ op.c # "" -> op.c \notin DOMAIN Imported(op.m).env[op.m]
    [] op.op = "fn" -> op.n \notin DOMAIN Imported(op.m).env[op.m]
    [] op.op = "get" -> op.n \notin DOMAIN Imported(op.m).env[op.m] /\ ModKey(op.m, op.n) \notin DOMAIN store
    [] OTHER -> FALSE
NoSuch(op) == /\ Took(op, << >>, "err missing") /\ it' = Imported(op.m) /\ UNCHANGED << store, objs >>
Can(op) == op.op \in {"method", "objget", "objset"} => op.obj <= Len(objs)
Importing == {"fn", "new", "static", "get", "set", "poke"}
Take(op) ==
    CASE op.op = "embed" -> Embed(op)
      [] op.op \in Importing /\ Imported(op.m).err -> Unknown_(op)
      [] op.op \in Importing /\ Lacks(op) -> NoSuch(op)
      [] op.op = "fn" -> CallFn(op) [] op.op = "new" -> New(op) [] op.op = "static" -> StaticCall(op)
      [] op.op = "method" -> CallMethod(op) [] op.op = "get" -> Get(op) [] op.op = "set" -> Set(op)
      [] op.op = "objget" -> ObjGet(op) [] op.op = "objset" -> ObjSet(op) [] op.op = "poke" -> Poke(op)
Limit == IF sc.line THEN Len(sc.menu) ELSE sc.depth
RNext ==
    /\ Len(hist) < Limit
    /\ \E i \in 1..Len(sc.menu) :
        /\ sc.line => i = Len(hist) + 1
        /\ Can(sc.menu[i])
        /\ Take(sc.menu[i])
    /\ UNCHANGED sc
RStart(s) ==
    /\ sc = s /\ it = Interp0 /\ store = [x \in {} |-> VNone] /\ objs = << >> /\ hist = << >>
    /\ PrintT("##" \o ToJson([id |-> s.id, world |-> s.world, nopath |-> s.nopath, calls |-> s.calls]))
(* Every history that cannot go on is handed to the driver *)
Over == Len(hist) = Limit \/ ~\E i \in 1..Len(sc.menu) : (sc.line => i = Len(hist) + 1) /\ Can(sc.menu[i])
Told_ == Over => PrintT("@@" \o ToJson([id |-> sc.id, hist |-> hist]))

(* ---- steps ------------------------------------------------------------------------------ *)
(* rm, rc and r: the Rust path of the module, and the names of the struct and of the item *)
Step(op, m, c, n, obj, args) == [op |-> op, m |-> m, c |-> c, n |-> n, obj |-> obj, args |-> args,
    rm |-> RPath(m), lm |-> RPath(m), rc |-> IF c = "" THEN "" ELSE RustName("s", c),
    r |-> CASE op = "new" -> "new" [] n = "__call__" -> "call" [] op \in {"set", "objset"} -> AccessorName("set", n)
            [] op \in {"get", "objget"} -> GetterName(n, {}) [] op \in {"poke", "embed"} -> "" [] OTHER -> RustName("f", n)]
SFn(m, n, args) == Step("fn", m, "", n, 0, args)
(* through the re-export n of m: the function is bound as on in origin *)
SVia(m, n, origin, on, args) == [SFn(m, n, args) EXCEPT !.lm = RPath(origin)] @@ [lr |-> RustName("f", on)]
SNew(m, c, args) == Step("new", m, c, "", 0, args)
SStatic(m, c, n, args) == Step("static", m, c, n, 0, args)
SMethod(m, c, n, obj, args) == Step("method", m, c, n, obj, args)
SGet(m, n) == Step("get", m, "", n, 0, << >>)
SSet(m, n, v) == Step("set", m, "", n, 0, << v >>)
SObjGet(m, c, n, obj) == Step("objget", m, c, n, obj, << >>)
SObjSet(m, c, n, obj, v) == Step("objset", m, c, n, obj, << v >>)
SPoke(m, c, n, v) == Step("poke", m, c, n, 0, << v >>)
SEmbed(m) == Step("embed", m, "", "", 0, << >>)
Scene(world, menu) == [id |-> "", world |-> world, menu |-> menu, depth |-> 0, line |-> TRUE, nopath |-> FALSE, calls |-> << ByName("pk") >>]
Free(world, menu, depth) == [Scene(world, menu) EXCEPT !.depth = depth, !.line = FALSE]
(* Bindings of source texts, used where there are no files *)
Embedded(world, names, menu, depth) == [Free(world, menu, depth) EXCEPT !.nopath = TRUE,
    !.calls = [i \in 1..Len(names) |-> FromStrCall(names[i], world[names[i]])]]
(* named by their place in the list *)
Scenes2(name, scs) == [i \in 1..Len(scs) |-> [scs[i] EXCEPT !.id = name \o "-" \o ToString(i)]]
RStartOne(scs) == \E i \in 1..Len(scs) : RStart(scs[i])

(* ---- what users rely on -------------------------------------------------------------------- *)
(* C04: exactly the one call, of the right callable, with the right arguments *)
Calling == {"fn", "new", "static", "method"}
ExactlyOneCall == \A i \in 1..Len(hist) :
    Len(hist[i].log) = IF hist[i].op.op \in Calling /\ hist[i].res \notin {"err missing"} THEN 1 ELSE 0
(* C05: a getter returns what was stored last *)
Slot(op) == << op.m, op.c, op.n, op.obj >>
ReadsLastWrite == \A i \in 1..Len(hist) : hist[i].op.op \in {"get", "objget"} =>
    \A j \in 1..(i - 1) :
        (/\ hist[j].op.op \in {"set", "objset"} /\ Slot(hist[j].op) = Slot(hist[i].op)
         /\ \A k \in (j + 1)..(i - 1) : ~(hist[k].op.op \in {"set", "objset", "poke"} /\ hist[k].op.n = hist[i].op.n))
        => Occurs(hist[i].res, Canon(hist[j].op.args[1]))
             \/ hist[j].op.args[1].v \notin {"int", "str"}
(* C06: what is found in a fresh interpreter is what was found when everything had been imported *)
RECURSIVE ImportEach(_, _)
ImportEach(s, ms) == IF ms = << >> THEN s ELSE ImportEach([ImportTop(RW, s, Head(ms)) EXCEPT !.err = FALSE], Tail(ms))
FindsTheSame == \A i \in 1..Len(hist) : hist[i].op.op = "fn" =>
    LET all == ImportEach(Interp0, << "pk" >> \o SetToSeq(DOMAIN RW \ {"pk"}))
        o == all.env[hist[i].op.m][hist[i].op.n]
    IN hist[i].log[1].f = o.m \o "." \o (IF o.an = "<lambda>" THEN hist[i].op.n ELSE o.an)
=============================================================================
