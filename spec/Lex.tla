---------------------------------- MODULE Lex ----------------------------------
(* Strings, dotted paths and names: how Python names become Rust names.         *)
(* Strings are TLC strings; paths are dotted strings ("pk.sub.f").              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Ch(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
DropPrefix(s, p) == SubSeq(s, Len(p) + 1, Len(s))
(* inner text of "<open>...<close>" *)
Inner(s, open, close) == SubSeq(s, Len(open) + 1, Len(s) - Len(close))
Wraps(s, open, close) == StartsWith(s, open) /\ EndsWith(s, close) /\ Len(s) >= Len(open) + Len(close)

Count(s, c) == Cardinality({i \in 1..Len(s) : Ch(s, i) = c})
HasChar(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
(* number of (possibly overlapping) occurrences of t in s *)
Occurs(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t

RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {" ", "\t"} THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in {" ", "\t"} THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

(* All positions of c in s, ascending *)
Positions(s, c) == SetToSortSeq({i \in 1..Len(s) : Ch(s, i) = c}, <)
Split(s, c) ==
    LET p == Positions(s, c)
        n == Len(p)
    IN [k \in 1..(n + 1) |->
            SubSeq(s, IF k = 1 THEN 1 ELSE p[k-1] + 1, IF k = n + 1 THEN Len(s) ELSE p[k] - 1)]

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) ==
    IF i > Len(ss) THEN ""
    ELSE IF i = Len(ss) THEN ss[i]
    ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

(* ---- dotted paths -------------------------------------------------------- *)
Segs(p) == IF p = "" THEN << >> ELSE SelectSeq(Split(p, "."), LAMBDA x : x # "")
Dot(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o "." \o b
Parent(p) == LET q == Positions(p, ".") IN IF q = << >> THEN "" ELSE SubSeq(p, 1, q[Len(q)] - 1)
Leaf(p) == LET q == Positions(p, ".") IN IF q = << >> THEN p ELSE SubSeq(p, q[Len(q)] + 1, Len(p))
Root(p) == LET q == Positions(p, ".") IN IF q = << >> THEN p ELSE SubSeq(p, 1, q[1] - 1)
(* p is at or below q *)
Under(p, q) == p = q \/ StartsWith(p, q \o ".")
(* the proper ancestors of p, and p itself *)
PathPrefixes(p) == {SubSeq(p, 1, i - 1) : i \in {j \in 1..Len(p) : Ch(p, j) = "."}} \cup {p}
Ancestors(p) == PathPrefixes(p) \ {p}

(* ---- identifiers ----------------------------------------------------------*)
RustKeywords == {"abstract", "as", "async", "await", "become", "box", "break", "const", "continue",
    "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in",
    "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return",
    "Self", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof", "unsafe",
    "unsized", "use", "virtual", "where", "while", "yield"}
(* Names that are not even legal as raw identifiers *)
NeverRaw == {"crate", "self", "super", "Self", "_"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
NonIdentChars == {" ", "-", "+", "*", "/", ".", ",", ":", ";", "<", ">", "[", "]", "(", ")", "{", "}",
    "'", "\"", "!", "?", "@", "#", "$", "%", "^", "&", "=", "|", "~", "`"}
HasRustName(n) ==
    /\ n # ""
    /\ n \notin NeverRaw
    /\ Ch(n, 1) \notin Digits
    /\ \A i \in 1..Len(n) : Ch(n, i) \notin NonIdentChars
RECURSIVE SanFrom(_, _)
SanFrom(n, i) == IF i > Len(n) THEN ""
    ELSE (IF Ch(n, i) \in NonIdentChars THEN "_" ELSE Ch(n, i)) \o SanFrom(n, i + 1)
San(n) == SanFrom(n, 1)
(* The Rust name of a Python name (raw identifiers are written without r#) *)
RustName(prefix, n) == IF HasRustName(n) THEN n ELSE prefix \o "_" \o San(n)
PathHasRustName(p) == \A i \in 1..Len(Segs(p)) : HasRustName(Segs(p)[i])

(* ---- docstrings ------------------------------------------------------------*)
(* A docstring is modelled as its sequence of lines.                            *)
RECURSIVE Dedup(_, _, _)
(* drop repetitions of the characters in set C *)
Dedup(s, C, i) ==
    IF i > Len(s) THEN ""
    ELSE IF i > 1 /\ Ch(s, i) \in C /\ Ch(s, i - 1) = Ch(s, i) THEN Dedup(s, C, i + 1)
    ELSE Ch(s, i) \o Dedup(s, C, i + 1)
RECURSIVE StripSlash(_)
RECURSIVE TrimWs(_)
Ws == {" ", "\n", "\t"}
TrimWs(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in Ws THEN TrimWs(SubSeq(s, 1, Len(s) - 1)) ELSE s
StripSlash(s) == IF EndsWith(s, "/") THEN StripSlash(TrimWs(SubSeq(s, 1, Len(s) - 1))) ELSE s
RECURSIVE DropLeadNL(_), OneTrailNL(_)
DropLeadNL(s) == IF StartsWith(s, "\n") THEN DropLeadNL(SubSeq(s, 2, Len(s))) ELSE s
OneTrailNL(s) == IF EndsWith(s, "\n\n") THEN OneTrailNL(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* Lines of a text as Rust's str::lines: a final newline does not start a line *)
DocLines(s) == LET l == Split(s, "\n") IN
    IF Len(l) > 0 /\ l[Len(l)] = "" THEN SubSeq(l, 1, Len(l) - 1) ELSE l
FormatDoc(s) ==
    LET l == DocLines(s)
        t1 == Join([i \in 1..Len(l) |-> Trim(l[i])], "\n")
        t2 == StripSlash(t1)
        t3 == Dedup(t2, {" ", "\t"}, 1)
        t4 == Dedup(t3, {"`"}, 1)
        t5 == IF HasChar(t4, "\n")
              THEN LET a == DropLeadNL(t4) IN
                   IF EndsWith(a, "\n") THEN OneTrailNL(a) ELSE a \o "\n"
              ELSE t4
    IN " " \o t5
================================================================================
