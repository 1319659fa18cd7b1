------------------------------- MODULE MC_Index -------------------------------
(* Exhaustive exploration of all sequences of at most MaxHist patterns of a   *)
(* small universe; every reachable matcher is asked for every text of at most *)
(* MaxText characters.  Emits, for the replay on the real matchers, what each *)
(* of them has to answer.                                                     *)
EXTENDS IndexImpl, TLC, Json, IOUtils

CONSTANTS MaxText, Universe, DoEmit

a == 97  b == 98  n1 == 49  n2 == 50  e1 == 233  e2 == 232  sp == 32
x == <<120>>  y == <<121>>

INT(nm) == IntP(nm, NoBound, NoBound)
X == <<x>>  Y == <<y>>

Core == <<
  <<Lit(<<a>>)>>,
  <<Lit(<<a, b>>)>>,
  <<Lit(<<a, b, a>>)>>,
  <<Lit(<<a>>), INT(X)>>,
  <<Lit(<<a, b>>), INT(X)>>,
  <<INT(X)>>,
  <<INT(X), Lit(<<a>>)>>,
  <<INT(X), Lit(<<a, b>>)>>,
  <<SetP(X, {a, b}, NoBound, NoBound)>>,
  <<SetP(Y, {a, b}, NoBound, 2), INT(X)>>,
  <<Lit(<<a>>), GreedyP(X, <<>>)>>,
  <<GreedyP(X, <<<<b>>>>), Lit(<<b>>)>>,
  <<GreedyP(X, <<<<b>>>>), Lit(<<b>>), INT(<<>>)>>,
  <<INT(X), Lit(<<a>>), SetP(X, {a, e1}, NoBound, NoBound)>>,
  <<Lit(<<e1>>)>>,
  <<Lit(<<e1, a>>), INT(X)>>
>>
\* more of the same kind, for deeper runs
Wide == Core \o <<
  <<Lit(<<e2>>), INT(Y)>>,
  <<SetP(X, {a, e1}, 2, NoBound)>>,
  <<SetP(X, {a, e1}, 2, 3)>>,
  <<INT(<<>>)>>,
  <<INT(Y), Lit(<<a>>)>>,
  <<GreedyP(<<>>, <<>>)>>,
  <<Lit(<<a>>), SetP(X, {b, n1}, NoBound, NoBound), Lit(<<a>>)>>,
  <<IntP(X, 2, 2), Lit(<<a>>)>>
>>
\* parsers that differ in one detail only
Close == <<
  <<INT(X)>>, <<INT(Y)>>, <<INT(<<>>)>>, <<IntP(X, 1, NoBound)>>, <<IntP(X, NoBound, 1)>>, <<IntP(X, NoBound, 2)>>,
  <<IntP(X, 2, NoBound), Lit(<<a>>)>>, <<INT(X), Lit(<<a>>)>>,
  <<SetP(X, Digits, NoBound, NoBound)>>, <<SetP(X, {n1}, NoBound, NoBound)>>, <<SetP(X, {n1, a}, NoBound, NoBound)>>,
  <<SetP(X, {n1, a}, 2, NoBound)>>, <<SetP(X, {n1, a}, NoBound, 2)>>, <<SetP(Y, {n1, a}, NoBound, 2), Lit(<<b>>)>>,
  <<GreedyP(X, <<>>)>>, <<GreedyP(Y, <<>>)>>,
  <<GreedyP(X, <<<<a>>>>), Lit(<<a>>)>>, <<GreedyP(X, <<<<a, b>>>>), Lit(<<a, b>>)>>, <<GreedyP(X, <<<<b>>>>), Lit(<<b>>)>>,
  <<GreedyP(Y, <<<<a>>>>), Lit(<<a>>), INT(X)>>
>>
\* what only a program can build: empty literals, literals in a row, no
\* tokens at all, a greedy parser that ends at something else
Odd == <<
  <<>>,
  <<Lit(<<>>)>>,
  <<Lit(<<>>), Lit(<<a>>)>>,
  <<Lit(<<a>>), Lit(<<>>)>>,
  <<Lit(<<a>>), Lit(<<b>>)>>,
  <<Lit(<<a, b>>)>>,
  <<Lit(<<a>>)>>,
  <<Lit(<<a>>), Lit(<<>>), INT(X)>>,
  <<Lit(<<>>), INT(X)>>,
  <<INT(X), Lit(<<>>)>>,
  <<INT(X), Lit(<<>>), Lit(<<a>>)>>,
  <<INT(X), INT(Y)>>,
  <<GreedyP(X, <<<<>>>>), Lit(<<a>>)>>,
  <<GreedyP(X, <<<<b>>>>), Lit(<<a>>)>>,
  <<GreedyP(X, <<<<b>>>>), SetP(Y, {b}, NoBound, NoBound)>>,
  <<SetP(X, {}, NoBound, NoBound)>>,
  <<SetP(X, {a, b}, 2, 1)>>,
  <<SetP(X, {a, b}, 0, NoBound), Lit(<<n1>>)>>,
  <<SetP(X, {a, b}, NoBound, 0)>>
>>
Patterns == CASE Universe = "core" -> Core [] Universe = "wide" -> Wide
              [] Universe = "close" -> Close [] Universe = "odd" -> Odd
Small == Universe # "wide"
MCPatternIds == 1..Len(Patterns)
MCToks(p) == Patterns[p]

Alphabet == IF Small THEN {a, b, n1, e1} ELSE {a, b, n1, e1, e2}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxText}
TextSeq ==
    LET RECURSIVE AllOf(_)
        AllOf(n) == IF n = 0 THEN <<<<>>>>
                    ELSE LET prev == AllOf(n - 1)
                             al   == <<a, b, n1, e1>> \o (IF Small THEN <<>> ELSE <<e2>>)
                         IN  [k \in 1..(Len(prev) * Len(al)) |->
                                 Append(prev[((k - 1) \div Len(al)) + 1], al[((k - 1) % Len(al)) + 1])]
        RECURSIVE UpTo(_)
        UpTo(n) == IF n = 0 THEN AllOf(0) ELSE UpTo(n - 1) \o AllOf(n)
    IN  TLCEval(UpTo(MaxText))

ASSUME Header ==
    DoEmit =>
      /\ PrintT(ToJson([k |-> "patterns", v |-> Patterns]))
      /\ PrintT(ToJson([k |-> "texts", v |-> TextSeq]))
      /\ PrintT(ToJson([k |-> "alone", v |-> [p \in 1..Len(Patterns) |->
                 [j \in 1..Len(TextSeq) |-> IF Alone(Patterns[p], TextSeq[j]) THEN 1 ELSE 0]]]))
      /\ PrintT(ToJson([k |-> "values", v |-> [p \in 1..Len(Patterns) |->
                 [j \in 1..Len(TextSeq) |-> IF Alone(Patterns[p], TextSeq[j])
                                            THEN Values(Patterns[p], TextSeq[j]) ELSE {}]]]))

Correct == IndexOk(Texts)
Safe == IndexSafe(Texts)

Refines == Abs!Spec

Emit ==
    DoEmit => \A h \in Live :
        PrintT(ToJson([k |-> "case", hist |-> hist[h],
                       best |-> [j \in 1..Len(TextSeq) |-> Best(Abs!PatsOf(h), TextSeq[j])]]))
=============================================================================
