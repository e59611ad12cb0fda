--------------------------------- MODULE MC_Values ---------------------------------
(* Values of every supported annotation: as argument, result, both, property (C21).   *)
EXTENDS Runtime
CONSTANT Depth
G(c, xs) == AN("generic:" \o c, xs)
Opt(t) == AN("|", << t, A0("None") >>)
Uni == "\\xe9\\xdf\\u20ac\\U0001f600"   \* as ascii() shows it
(* two values of a type, in the order of their texts *)
Two == ("int" :> << VInt("-5"), VInt("2") >>) @@ ("str" :> << VStr("''"), VStr("'a'") >>) @@ ("bool" :> << V("bool", "False"), V("bool", "True") >>)
    @@ ("pathlib.Path" :> << V("path", "PosixPath('a')"), V("path", "PosixPath('b')") >>)
    @@ ("ipaddress.IPv4Address" :> << V("ip", "IPv4Address('1.2.3.4')"), V("ip", "IPv4Address('255.255.255.255')") >>)
Bytes(k, xs) == VX(k, Map(LAMBDA n : VInt(ToString(n)), xs))
Scalars == [t \in {"int", "str", "bool", "float", "bytes", "bytearray", "complex", "datetime.datetime", "datetime.date", "datetime.time",
                   "datetime.timedelta", "pathlib.Path", "ipaddress.IPv4Address", "ipaddress.IPv6Address", "object", "Any", "slice", "range", "decimal.Decimal"} |->
    CASE t = "int" -> << VInt("0"), VInt("-1"), VInt("9223372036854775807"), VInt("-9223372036854775808") >>
      [] t = "str" -> << VStr("''"), VStr("'plain'"), VStr("'\\x00'"), VStr("'\\n\\t\"'"), V("str", "'" \o Uni \o "'") >>
      [] t = "bool" -> Two["bool"]
      [] t = "float" -> Map(LAMBDA s : V("float", s), << "0.0", "-0.0", "0.1", "inf", "-inf", "nan", "5e-324", "1.7976931348623157e+308" >>)
      [] t \in {"bytes", "bytearray"} -> << VX(t, << >>), Bytes(t, << 0, 255, 128 >>) >>
      [] t = "complex" -> << V("complex", "1j"), V("complex", "(1-2j)") >>
      [] t = "datetime.datetime" -> << V("dt", "datetime.datetime(2020, 2, 29, 23, 59, 59, 999999)"), V("dt", "datetime.datetime(1, 1, 1, 0, 0)"),
                                       V("dt", "datetime.datetime(2020, 1, 1, 0, 0, tzinfo=datetime.timezone.utc)") >>
      [] t = "datetime.date" -> << V("date", "datetime.date(9999, 12, 31)") >>
      [] t = "datetime.time" -> << V("time", "datetime.time(23, 59, 59, 999999)"), V("time", "datetime.time(0, 0, fold=1)") >>
      [] t = "datetime.timedelta" -> << V("delta", "datetime.timedelta(days=-1, seconds=3)"), V("delta", "datetime.timedelta(0)") >>
      [] t = "pathlib.Path" -> << V("path", "PosixPath('.')"), V("path", "PosixPath('/a b/" \o Uni \o "')") >>
      [] t = "ipaddress.IPv4Address" -> Two[t]
      [] t = "ipaddress.IPv6Address" -> << V("ip", "IPv6Address('::1')"), V("ip", "IPv6Address('2001:db8::ff00:42:8329')") >>
      [] t = "object" -> << VNone, VInt("123456789012345678901234567890"), VX("list", << VStr("'a'") >>) >>
      [] t = "Any" -> << VNone, VX("dict", << VInt("1"), VX("tuple", << >>) >>), Bytes("bytes", << 7 >>) >>
      [] t = "slice" -> << V("slice", "slice(1, None, 2)") >>
      [] t = "range" -> << V("range", "range(0, 3)") >>
      [] t = "decimal.Decimal" -> << VInt("3") >>]
RECURSIVE ValsOf(_)
Pair(t) == IF t.a \in DOMAIN Two THEN Two[t.a] ELSE << Head(ValsOf(t)) >>
ValsOf(t) ==
    CASE t.a \in DOMAIN Scalars -> Scalars[t.a]
      [] t.a = "generic:list" -> << VX("list", << >>), VX("list", ValsOf(t.xs[1])), VX("list", << ValsOf(t.xs[1])[1], ValsOf(t.xs[1])[1] >>) >>
      [] t.a = "generic:collections.abc.Sequence" -> << VX("list", << >>), VX("list", ValsOf(t.xs[1])) >>
      [] t.a \in {"generic:set", "generic:frozenset"} -> LET k == DropPrefix(t.a, "generic:") IN << VX(k, << >>), VX(k, Pair(t.xs[1])) >>
      [] t.a = "generic:tuple" /\ Len(t.xs) = 2 /\ t.xs[2].a = "..." -> << VX("tuple", << >>), VX("tuple", ValsOf(t.xs[1])) >>
      [] t.a = "generic:tuple" -> << VX("tuple", [i \in 1..Len(t.xs) |-> ValsOf(t.xs[i])[1]]),
                                     VX("tuple", [i \in 1..Len(t.xs) |-> ValsOf(t.xs[i])[Len(ValsOf(t.xs[i]))]]) >>
      [] t.a = "generic:dict" ->
            LET ks == Pair(t.xs[1])
                vs == ValsOf(t.xs[2])
            IN << VX("dict", << >>), VX("dict", << ks[1], vs[1] >>) >>
               \o (IF Len(ks) = 2 THEN << VX("dict", << ks[1], vs[Len(vs)], ks[2], vs[1] >>) >> ELSE << >>)
      [] t.a = "|" /\ t.xs[2].a = "None" -> << VNone >> \o ValsOf(t.xs[1])
      [] t.a = "|" -> ValsOf(t.xs[1]) \o ValsOf(t.xs[2])
      [] t.a \in {"list", "dict", "set", "frozenset", "tuple"} ->
            << VX(t.a, << >>), IF t.a = "dict" THEN VX("dict", << VStr("'k'"), VNone >>) ELSE VX(t.a, << VStr("'a'"), VInt("1") >>) >>
Atoms == Map(A0, SetToSeq(DOMAIN Scalars))
Keys == Map(A0, << "int", "str", "bool", "pathlib.Path", "ipaddress.IPv4Address" >>)
Inner0 == Map(A0, << "int", "str", "bool", "float", "bytes", "bytearray", "object", "complex", "datetime.date", "pathlib.Path", "ipaddress.IPv6Address" >>)
Bare == Map(A0, << "list", "dict", "set", "frozenset", "tuple" >>)
Seqs == << "list", "collections.abc.Sequence" >>
Of1(ts) == Cross(LAMBDA c, t : G(c, << t >>), Seqs, ts) \o Map(Opt, ts) \o Map(LAMBDA t : G("tuple", << t, A0("...") >>), ts)
    \o Map(LAMBDA t : G("dict", << A0("str"), t >>), ts) \o Map(LAMBDA t : G("tuple", << t, A0("int") >>), ts)
Level1 == Of1(Inner0) \o Cross(LAMBDA c, t : G(c, << t >>), << "set", "frozenset" >>, Keys) \o Map(LAMBDA t : G("dict", << t, A0("int") >>), Keys)
    \o << G("dict", << A0("float"), A0("int") >>), G("set", << A0("float") >>), AN("|", << A0("int"), A0("str") >>), G("tuple", << A0("int") >>),
          G("tuple", << A0("str"), A0("int"), A0("float"), A0("bool") >>),
          G("tuple", [i \in 1..12 |-> A0("int")]), G("tuple", [i \in 1..13 |-> A0("int")]) >>
Level2 == Of1(Of1(Map(A0, << "int", "str" >>))) \o Map(Opt, Bare)
(* containers that need conversion, inside each other *)
Convs == << G("frozenset", << A0("int") >>), G("list", << A0("bytes") >>), G("set", << A0("pathlib.Path") >>), G("dict", << A0("str"), A0("bytes") >>),
            G("tuple", << A0("bytes"), A0("int") >>), G("tuple", << A0("pathlib.Path"), A0("...") >>), Opt(A0("bytes")), Opt(G("frozenset", << A0("str") >>)) >>
Mixed == FlattenSeq(Map(LAMBDA t : << G("tuple", << t, t >>), Opt(t), G("list", << t >>), G("dict", << A0("str"), t >>), G("tuple", << t, A0("...") >>) >>,
             SelectSeq(Convs, LAMBDA t : t.a # "|"))) \o Map(LAMBDA t : G("tuple", << t, A0("str") >>), SelectSeq(Convs, LAMBDA t : t.a = "|"))
Terms == Atoms \o Bare \o Level1 \o Mixed \o (IF Depth >= 2 THEN Level2 ELSE << >>)
ValWorld(t) == At(Skeleton, "pk.a",
    << LDefT("echo", << PT("v", 1, t) >>, t, "v"), LDefT("give", << P("v", 1) >>, t, "v"), LDefT("take", << PT("v", 3, t) >>, NoAnn, "v"),
       Class("K", << LMethodHow("K", "__init__", "inst", << Self >>, "none"), PropRW("p", t, t), LMethodT("K", "m", "inst", << Self, PT("v", 1, t) >>, t, "v"),
                     LMethodT("K", "s", "static", << PT("v", 1, t) >>, t, "v"), LMethodHow("K", "peek", "inst", << Self >>, ".p") >>) >>)
ValMenu(t) == << SNew("pk.a", "K", << >>) >> \o FlattenSeq(Map(LAMBDA v :
    << SFn("pk.a", "echo", << v >>), SFn("pk.a", "give", << v >>), SFn("pk.a", "take", << v >>),
       SMethod("pk.a", "K", "m", 1, << v >>), SStatic("pk.a", "K", "s", << v >>),
       SObjSet("pk.a", "K", "p", 1, v), SMethod("pk.a", "K", "peek", 1, << >>), SObjGet("pk.a", "K", "p", 1) >>, ValsOf(t)))
(* results that do not have the type that the annotation promises *)
Wrong == << Scene(At(Skeleton, "pk.a", << LDefT("i", << P("v", 1) >>, A0("int"), "v"), LDefT("s", << P("v", 1) >>, A0("str"), "v"),
                     LDefT("f", << P("v", 1) >>, A0("float"), "v"), LDefT("b", << P("v", 1) >>, A0("bool"), "v") >>),
        << SFn("pk.a", "i", << V("bigint", "9223372036854775808") >>), SFn("pk.a", "i", << V("bigint", "-9223372036854775809") >>), SFn("pk.a", "i", << VNone >>),
           SFn("pk.a", "i", << VStr("'1'") >>), SFn("pk.a", "s", << VInt("1") >>), SFn("pk.a", "s", << VNone >>), SFn("pk.a", "f", << VStr("'1.5'") >>),
           SFn("pk.a", "b", << VInt("1") >>), SFn("pk.a", "b", << VNone >>), SFn("pk.a", "f", << VNone >>) >>) >>
(* instances of a bound class *)
KRef == AS("ref", "K")
KTerms == << KRef, Opt(KRef), G("list", << KRef >>), G("dict", << A0("str"), KRef >>), G("tuple", << KRef, KRef >>), NoAnn, A0("Any"), A0("object"),
    Opt(G("list", << KRef >>)) >>
One == VObj("pk.a", "K", 1)
Other2 == VObj("pk.a", "K", 2)
KVals(t) == CASE t \in {KRef, NoAnn, A0("Any"), A0("object")} -> << One, Other2 >>
    [] t = Opt(KRef) -> << One, VNone >>
    [] t.a = "generic:list" -> << VX("list", << One, Other2, One >>), VX("list", << >>) >>
    [] t.a = "generic:dict" -> << VX("dict", << VStr("'k'"), Other2 >>) >>
    [] t.a = "generic:tuple" -> << VX("tuple", << Other2, One >>) >>
    [] OTHER -> << VNone, VX("list", << Other2 >>) >>
ObjScene(t) == Scene(
    At(Skeleton, "pk.a", << Class("K", << LMethodHow("K", "__init__", "inst", << Self >>, "none"),
                                LMethodT("K", "m", "inst", << Self, PT("v", 1, NoAnn) >>, NoAnn, "v") >>),
        SubClass("L", "K", << LMethodHow("L", "__init__", "inst", << Self >>, "none") >>),
        LDefT("echo", << PT("v", 1, t) >>, t, "v"), LDefT("give", << P("v", 1) >>, t, "v"), LDefT("take", << PT("v", 3, t) >>, NoAnn, "v"),
        Class("M", << LMethodHow("M", "__init__", "inst", << Self >>, "none"), PropRW("p", t, t), LMethodHow("M", "peek", "inst", << Self >>, ".p") >>) >>),
    << SNew("pk.a", "K", << >>), SNew("pk.a", "K", << >>), SNew("pk.a", "M", << >>) >>
    \o FlattenSeq(Map(LAMBDA v :
        << SFn("pk.a", "echo", << v >>), SFn("pk.a", "give", << v >>), SFn("pk.a", "take", << v >>), SMethod("pk.a", "K", "m", 1, << v >>),
           SObjSet("pk.a", "M", "p", 3, v), SMethod("pk.a", "M", "peek", 3, << >>), SObjGet("pk.a", "M", "p", 3) >>, KVals(t))))
SceneList == Scenes2("values", Map(LAMBDA t : Scene(ValWorld(t), ValMenu(t)), Terms) \o Wrong \o Map(ObjScene, KTerms))
Init == RStartOne(SceneList)
Spec == Init /\ [][RNext]_rvars
=============================================================================
