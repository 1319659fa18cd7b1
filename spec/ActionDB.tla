------------------------------- MODULE ActionDB -------------------------------
(* The system as its user sees it: matchers (handles) that patterns are added *)
(* to, that are asked about messages and that can be cloned.                  *)
(*                                                                            *)
(*   hist[h]   the patterns added to the matcher h, in order (numbers of      *)
(*             patterns; Toks(p) are the tokens of pattern number p)          *)
(*                                                                            *)
(* The answer of a matcher to a message is a function of its history alone,   *)
(* and asking changes nothing.                                                *)
EXTENDS Matching

CONSTANTS Handles, PatternIds, Toks(_), MaxHist

VARIABLE hist

Unused == <<0>>          \* pattern numbers begin at 1
Live == {h \in Handles : hist[h] # Unused}
PatsOf(h) == [j \in 1..Len(hist[h]) |-> Toks(hist[h][j])]

Init == hist = [h \in Handles |-> Unused]

New(h)    == hist[h] = Unused /\ hist' = [hist EXCEPT ![h] = <<>>]
Add(h, p) == h \in Live /\ Len(hist[h]) < MaxHist /\ hist' = [hist EXCEPT ![h] = Append(@, p)]
Clone(h, g) == h \in Live /\ hist[g] = Unused /\ hist' = [hist EXCEPT ![g] = hist[h]]
Drop(h)   == h \in Live /\ hist' = [hist EXCEPT ![h] = Unused]
Ask(h)    == h \in Live /\ UNCHANGED hist

Next ==
    \/ \E h \in Handles : New(h)
    \/ \E h \in Handles, p \in PatternIds : Add(h, p)
    \/ \E h, g \in Handles : h # g /\ Clone(h, g)

Spec == Init /\ [][Next]_hist

-----------------------------------------------------------------------------
NoMatch == <<>>

Answer(h, t) ==
    LET b == Best(PatsOf(h), t)
    IN  IF b = 0 THEN NoMatch ELSE <<b, Values(Toks(hist[h][b]), t)>>

(* What an answer r (NoMatch or <<position in the history, values>>) of the   *)
(* matcher h to the message t has to satisfy                                  *)
SoundAt(h, t, r) == r # NoMatch => (r[1] \in 1..Len(hist[h]) /\ Alone(Toks(hist[h][r[1]]), t))   \* C01
CompleteAt(h, t, r) == (\E j \in 1..Len(hist[h]) : Alone(Toks(hist[h][j]), t)) => r # NoMatch     \* C02
WinnerAt(h, t, r) == (IF r = NoMatch THEN 0 ELSE r[1]) = Best(PatsOf(h), t)                       \* C03
ValuesAt(h, t, r) == r # NoMatch => r[2] = Values(Toks(hist[h][r[1]]), t)                         \* C06

(* the precedence rule itself is sound and complete *)
RuleOk(t) == \A h \in Live : LET r == Answer(h, t) IN SoundAt(h, t, r) /\ CompleteAt(h, t, r)

(* C16, C17: the only way to change what a matcher answers is to add to it    *)
Isolation ==
    [][\A h \in Handles : (hist[h] # Unused /\ hist'[h] # hist[h]) =>
           (hist'[h] = Unused \/ \E p \in PatternIds : hist'[h] = Append(hist[h], p))]_hist
=============================================================================
