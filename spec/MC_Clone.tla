-------------------------------- MODULE MC_Clone ------------------------------
(* All ways to add patterns to, and to copy, up to three matchers in at most  *)
(* MaxSteps steps.  The behaviour itself (path) is part of the state, so that *)
(* every one of them is emitted for the replay on the real matchers: what     *)
(* each of the matchers then answers.                                         *)
EXTENDS IndexImpl, TLC, Json
CONSTANTS MaxSteps, DoEmit
VARIABLE path

a == 97  b == 98  n1 == 49  e1 == 233
x == <<120>>  y == <<121>>
Patterns == <<
  <<Lit(<<a>>), IntP(<<x>>, NoBound, NoBound)>>,
  <<Lit(<<a, b>>)>>,
  <<Lit(<<a>>), IntP(<<x>>, NoBound, NoBound), Lit(<<b>>)>>,
  <<GreedyP(<<y>>, <<>>)>>,
  <<SetP(<<y>>, {a, e1}, NoBound, 2), Lit(<<n1>>)>>
>>
MCPatternIds == 1..Len(Patterns)
MCToks(p) == Patterns[p]
TextSeq == << <<a, n1>>, <<a, b>>, <<a, n1, b>>, <<a>>, <<e1, n1>>, <<>> >>
Texts == SetOfSeq(TextSeq)

CInit == Init /\ path = <<>>
Started == hist[1] # Abs!Unused
CNext ==
    \/ /\ ~Started /\ New(1) /\ path' = path
    \/ /\ Started /\ Len(path) < MaxSteps
       /\ \/ \E h \in Live, p \in PatternIds : Add(h, p) /\ path' = Append(path, <<"add", h, p>>)
          \/ \E h \in Live : \E g \in Handles :
                /\ hist[g] = Abs!Unused /\ \A k \in Handles : k < g => hist[k] # Abs!Unused
                /\ Clone(h, g) /\ path' = Append(path, <<"clone", h, g>>)
cvars == <<hist, trie, table, path>>
CSpec == CInit /\ [][CNext]_cvars

Correct == IndexOk(Texts)
Refines == Abs!Spec
AbsIsolation == Abs!Isolation

ASSUME Header == DoEmit => /\ PrintT(ToJson([k |-> "patterns", v |-> Patterns]))
                           /\ PrintT(ToJson([k |-> "texts", v |-> TextSeq]))
Emit == (DoEmit /\ Started) =>
    PrintT(ToJson([k |-> "path", path |-> path,
                   ans |-> [h \in 1..Cardinality(Live) |->
                              [j \in 1..Len(TextSeq) |->
                                 LET r == Abs!Answer(h, TextSeq[j])
                                 IN  IF r = <<>> THEN <<>> ELSE <<hist[h][r[1]], r[2]>>]]]))
=============================================================================
