------------------------------- MODULE MC_Parsers -----------------------------
(* Parsers of all kinds against all texts of at most MaxText characters.      *)
(* ParseEnd is compared with a second formulation of what a parser does, and  *)
(* two parsers are the same exactly if they cannot be told apart.             *)
EXTENDS ParserSem, TLC, Json
CONSTANTS MaxText, DoEmit

a == 97  b == 98  n1 == 49  e1 == 233
x == <<120>>  y == <<121>>
Nameds == {<<>>, <<x>>, <<y>>}
Bounds == {NoBound, 0, 1, 2, 3, 4}
CharSets == {{a}, {a, b}, {a, e1}, {e1}, {n1}, {a, b, n1, e1}, {}, Digits}
EndTexts == {<<>>} \cup {<<w>> : w \in {<<>>, <<a>>, <<b>>, <<a, a>>, <<a, b>>, <<b, a>>, <<a, a, b>>, <<e1>>, <<e1, a>>}}
Parsers == {SetP(nm, cs, mn, mx) : nm \in {<<x>>}, cs \in CharSets, mn \in Bounds, mx \in Bounds}
           \cup {SetP(nm, cs, NoBound, mx) : nm \in Nameds, cs \in {{a}, {a, b}}, mx \in {NoBound, 2}}
           \cup {IntP(nm, mn, mx) : nm \in Nameds, mn \in Bounds, mx \in Bounds}
           \cup {GreedyP(nm, e) : nm \in Nameds, e \in EndTexts}

AlphaSeq == <<a, b, n1, e1>>
RECURSIVE AllOf(_)
AllOf(n) == IF n = 0 THEN <<<<>>>>
            ELSE LET prev == AllOf(n - 1)
                 IN  [k \in 1..(4 * Len(prev)) |-> Append(prev[((k - 1) \div 4) + 1], AlphaSeq[((k - 1) % 4) + 1])]
RECURSIVE UpTo(_)
UpTo(n) == IF n = 0 THEN AllOf(0) ELSE UpTo(n - 1) \o AllOf(n)
TextSeq == TLCEval(UpTo(MaxText))

VARIABLES par, other
Init == par \in Parsers /\ other = par
(* compare with a parser that differs in one attribute *)
Next == other = par /\ \E q \in Parsers :
           /\ Cardinality({f \in {"t", "name", "cs", "min", "max", "end"} : q[f] # par[f]}) <= 1
           /\ other' = q /\ par' = par

(* C07: takes n characters exactly if they all are in the set, the next one   *)
(* is not (or there is none), n is at least 1 and within the bounds           *)
Takes(p, t, n) ==
    /\ n \in 1..Len(t)
    /\ \A j \in 1..n : t[j] \in p.cs
    /\ n < Len(t) => t[n + 1] \notin p.cs
    /\ p.min # NoBound => n >= p.min
    /\ p.max # NoBound => n <= p.max
(* C08: the end follows what is taken, and occurs nowhere before *)
Stops(p, t, n) ==
    IF p.end = <<>> THEN n = Len(t)
    ELSE /\ n \in 0..Len(t) /\ PrefixAt(t, n + 1, p.end[1])
         /\ \A m \in 0..(n - 1) : ~PrefixAt(t, m + 1, p.end[1])
Meant == par = other =>
    \A j \in 1..Len(TextSeq) :
        LET t == TextSeq[j]
            e == ParseEnd(par, t, 1)
            D(n) == IF par.t = "greedy" THEN Stops(par, t, n) ELSE Takes(par, t, n)
        IN  IF e = 0 THEN \A n \in 0..Len(t) : ~D(n)
            ELSE D(e - 1) /\ \A n \in 0..Len(t) : D(n) => n = e - 1
(* parsers that are the same behave in the same way, under the same name *)
Same == SameParser(par, other) =>
            par.name = other.name /\ \A j \in 1..Len(TextSeq) : ParseEnd(par, TextSeq[j], 1) = ParseEnd(other, TextSeq[j], 1)

ASSUME Header == DoEmit => PrintT(ToJson([k |-> "texts", v |-> TextSeq]))
Emit == DoEmit =>
    IF par = other THEN PrintT(ToJson([k |-> "par", p |-> par, ends |-> [j \in 1..Len(TextSeq) |-> ParseEnd(par, TextSeq[j], 1)]]))
    ELSE PrintT(ToJson([k |-> "pair", p |-> par, q |-> other, same |-> IF SameParser(par, other) THEN 1 ELSE 0]))
=============================================================================
