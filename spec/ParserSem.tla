------------------------------ MODULE ParserSem ------------------------------
(* Tokens of a pattern and the meaning of its parsers.                        *)
(*                                                                            *)
(* A literal token is  [t |-> "lit", s |-> text].                             *)
(* A parser token is   [t, name, cs, min, max, end]  with                     *)
(*   t     "set" | "int" | "greedy"                                           *)
(*   name  <<>> (unnamed) or <<text>>                                         *)
(*   cs    set of allowed characters (set, int), {} for greedy                *)
(*   min, max   bounds on the number of characters, NoBound if absent         *)
(*   end   <<>> or <<text>>: what a greedy parser stops at                    *)
EXTENDS Text

NoBound == -1
Digits  == 48..57

Lit(s) == [t |-> "lit", s |-> s]
SetP(name, cs, mn, mx) == [t |-> "set", name |-> name, cs |-> cs, min |-> mn, max |-> mx, end |-> <<>>]
IntP(name, mn, mx)     == [t |-> "int", name |-> name, cs |-> Digits, min |-> mn, max |-> mx, end |-> <<>>]
GreedyP(name, end)     == [t |-> "greedy", name |-> name, cs |-> {}, min |-> NoBound, max |-> NoBound, end |-> end]

IsLit(tok) == tok.t = "lit"

LengthOk(p, n) ==
    /\ n > 0
    /\ (p.min = NoBound \/ n >= p.min)
    /\ (p.max = NoBound \/ n <= p.max)

(* Position after what p consumes of t from position i on, 0 if p fails.      *)
ParseEnd(p, t, i) ==
    IF p.t = "greedy"
    THEN IF p.end = <<>> THEN Len(t) + 1 ELSE FirstAt(t, i, p.end[1])
    ELSE LET e == RunEnd(t, i, p.cs) IN IF LengthOk(p, e - i) THEN e ELSE 0

(* Two parsers are the same parser exactly if all their attributes agree.     *)
SameParser(p, q) == p = q
=============================================================================
