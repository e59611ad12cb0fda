-------------------------------- MODULE MC_Strings --------------------------------
(* Annotations that are strings: every sequence of tokens up to a length, well-formed  *)
(* or not (C07, C12).                                                                  *)
EXTENDS Cases
CONSTANT Depth
Tokens == << "int", "str", "None", "list", "dict[", "list[", "tuple[", "Callable[", "Optional[", "[", "]", ",", "|", " ", ".", "...", "pk.C", "'", "::", "<class '", "'>", "-" >>
Few == << "int", "None", "dict[", "list[", "[", "]", ",", "|", "pk.C" >>
Fewer == << "int", "list[", "]", ",", "|", "..." >>
(* around something well-formed *)
Frames == << << "dict[", "]" >>, << "list[", "]" >>, << "tuple[", "]" >>, << "set[", "]" >>, << "frozenset[", "]" >>, << "Optional[", "]" >>, << "Union[", "]" >>, << "type[", "]" >>,
    << "Callable[", "]" >>, << "Callable[[", "], None]" >>, << "", " | None" >>, << "None | ", "" >>, << "typing.", "" >>, << "collections.abc.", "" >>, << "<class '", "'>" >>, << "<enum '", "'>" >>,
    << " ", " " >>, << "[", "]" >>, << "(", ")" >>, << "'", "'" >>, << "~", "" >>, << "", "[int]" >>, << "dict[str, ", "]" >>, << "dict[", ", int]" >>, << "tuple[", ", ...]" >>, << "list[list[", "]]" >>,
    << "list[int] | ", "" >>, << "", " | list[int]" >>, << "", "]" >>, << "", "[" >>, << "list[", "" >>, << "Literal['", "']" >> >>
Middles == << "", "int", "None", "int, str", "int | str", "int | None", "list[int]", "pk.C", "pk.C[int]", "pk", "pk.", ".pk.C", "pk..C", "C", "nowhere.C", "...", ",", "|", "||", "[", "]", "][", "int,", ",int",
    "a b", "1", "dict", "self", "super", "crate", "pk.self", "type", "pk.type", "r#type", "a-b", "::", "a::b", "datetime.datetime", "datetime.timedelta", "timedelta", "pathlib.Path", "property", "py", "Path", "object", "Any",
    "typing.Any", "bytes", "bytearray", "dict[str, Any]", "dict[str, dict[str, int]]", "list[tuple[int, str]]", "Callable", "Callable[[int], str]", "Sequence[int]", "Mapping[str, int]" >>
Long(as, n) == SelectSeq(Words(as, n), LAMBDA w : Len(w) = n)
Glue(w) == FoldLeft(LAMBDA a, b : a \o b, "", w)
Texts == Map(Glue, Words(Tokens, 2)) \o Map(Glue, Long(Few, 3)) \o Map(Glue, Long(Fewer, IF Depth = 1 THEN 4 ELSE 5))
    \o (IF Depth = 1 THEN << >> ELSE Map(Glue, Long(Tokens, 3)))
    \o Cross(LAMBDA f, m : f[1] \o m \o f[2], Frames, Middles)
    \o (IF Depth = 1 THEN << >> ELSE Cross3(LAMBDA f, g, m : f[1] \o g[1] \o m \o g[2] \o f[2], Frames, Frames, Middles))
Fn(i) == DefT("f" \o ToString(i), << PT("p", 1, AS("lit", Texts[i])) >>, AS("lit", Texts[i]))
ChunkSize == 60
World(k) == LET lo == (k - 1) * ChunkSize + 1
                hi == IF k * ChunkSize > Len(Texts) THEN Len(Texts) ELSE k * ChunkSize
            IN "pk" :> Mod(<< Class("C", << >>), Class("type", << >>), Class("self", << >>) >> \o [j \in 1..(hi - lo + 1) |-> Fn(lo + j - 1)])
CaseList == Numbered("strings", [k \in 1..((Len(Texts) + ChunkSize - 1) \div ChunkSize) |-> Plain(World(k))])
Init == StartOne(CaseList)
Spec == Init /\ [][Next]_vars
(* Whatever the text, the function is there and the call succeeds *)
Always == Done => /\ outs = << "ok", "ok" >>
                  /\ \A i \in 4..Len(W["pk"].ss) : ("fn|pk." \o W["pk"].ss[i].n \o "(p_p)") \in facts
=============================================================================
