------------------------------- MODULE Matching -------------------------------
(* Reference semantics: what a matcher holding a sequence of patterns answers *)
(* for a message.  A pattern is here a sequence of tokens; `pats` is the      *)
(* sequence of all added patterns in the order of their addition.             *)
EXTENDS ParserSem

(* Position after token tok matched at position i of t, 0 if it does not.     *)
TokEnd(tok, t, i) ==
    IF IsLit(tok) THEN (IF PrefixAt(t, i, tok.s) THEN i + Len(tok.s) ELSE 0)
    ELSE ParseEnd(tok, t, i)

(* Ends(toks, t): positions reached after each token, as long as they match.  *)
RECURSIVE EndsFrom(_, _, _, _)
EndsFrom(toks, d, t, i) ==
    IF d > Len(toks) THEN <<>>
    ELSE LET e == TokEnd(toks[d], t, i)
         IN  IF e = 0 THEN <<>> ELSE <<e>> \o EndsFrom(toks, d + 1, t, e)
Ends(toks, t) == EndsFrom(toks, 1, t, 1)

(* The pattern on its own matches the whole message.                          *)
Alone(toks, t) ==
    /\ Len(toks) > 0
    /\ LET e == Ends(toks, t)
       IN  Len(e) = Len(toks) /\ e[Len(toks)] = Len(t) + 1

(* key-value pairs extracted by a matching pattern: leftmost one per name     *)
Values(toks, t) ==
    LET e     == Ends(toks, t)
        start(j) == IF j = 1 THEN 1 ELSE e[j - 1]
        named == {j \in 1..Len(toks) : ~IsLit(toks[j]) /\ toks[j].name # <<>>}
        leftmost == {j \in named : \A k \in named : toks[k].name = toks[j].name => j <= k}
    IN  {<<toks[j].name[1], Piece(t, start(j), e[j])>> : j \in leftmost}

Names(toks) == {toks[j].name[1] : j \in {k \in 1..Len(toks) : ~IsLit(toks[k]) /\ toks[k].name # <<>>}}

(* What the pattern language can express: at least one token, no empty        *)
(* literal, never two literals in a row.                                      *)
Canonical(toks) ==
    /\ Len(toks) > 0
    /\ \A j \in 1..Len(toks) : IsLit(toks[j]) => Len(toks[j].s) > 0
    /\ \A j \in 1..(Len(toks) - 1) : ~(IsLit(toks[j]) /\ IsLit(toks[j + 1]))

-----------------------------------------------------------------------------
(* Best: the index of the winning pattern, 0 if no pattern matches.           *)
(*                                                                            *)
(* K is the set of the patterns that agree on their first d tokens and with   *)
(* which the message has been matched up to position i.                       *)
RECURSIVE BestIn(_, _, _, _, _), LitAlt(_, _, _, _, _, _), ParAlt(_, _, _, _, _)

Ended(pats, K, d) == {k \in K : Len(pats[k]) = d}

EnterIn(pats, K, d, t, i) ==
    IF i = Len(t) + 1 /\ Ended(pats, K, d) # {} THEN MaxOf(Ended(pats, K, d))
    ELSE BestIn(pats, K, d, t, i)

(* literals of the given lengths, longest first *)
LitAlt(pats, KL, lens, d, t, i) ==
    IF lens = {} THEN 0
    ELSE LET n == MaxOf(lens)
             r == EnterIn(pats, {k \in KL : Len(pats[k][d + 1].s) = n}, d + 1, t, i + n)
         IN  IF r # 0 THEN r ELSE LitAlt(pats, KL, lens \ {n}, d, t, i)

(* parsers, of those that succeed, in the order of their first appearance *)
ParAlt(pats, rest, d, t, i) ==
    IF rest = {} THEN 0
    ELSE LET k0   == MinOf(rest)
             p    == pats[k0][d + 1]
             same == {k \in rest : pats[k][d + 1] = p}
             r    == EnterIn(pats, same, d + 1, t, ParseEnd(p, t, i))
         IN  IF r # 0 THEN r ELSE ParAlt(pats, rest \ same, d, t, i)

BestIn(pats, K, d, t, i) ==
    LET more == {k \in K : Len(pats[k]) > d}
        lits == {k \in more : IsLit(pats[k][d + 1])}
        hits == {k \in lits : PrefixAt(t, i, pats[k][d + 1].s)}
        r    == LitAlt(pats, hits, {Len(pats[k][d + 1].s) : k \in hits}, d, t, i)
        pars == {k \in more \ lits : ParseEnd(pats[k][d + 1], t, i) # 0}
    IN  IF r # 0 THEN r ELSE ParAlt(pats, pars, d, t, i)

Best(pats, t) == BestIn(pats, 1..Len(pats), 0, t, 1)

(* the patterns which, on their own, match the message *)
Matching(pats, t) == {k \in 1..Len(pats) : Alone(pats[k], t)}
=============================================================================
