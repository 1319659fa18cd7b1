------------------------------- MODULE TrieImpl -------------------------------
(* The trie matcher as it is built: src/matcher/trie/node.                    *)
(*                                                                            *)
(* SuffixTree   [lits, pars]: literal children ordered by their first         *)
(*              character, which is unique among siblings; parser children in *)
(*              the order of their insertion                                  *)
(* LiteralNode  [s, val, pat, node]                                           *)
(* ParserNode   [p, pat, node]                                                *)
(*   pat   number of the pattern ending here, 0 for none                      *)
(*   node  <<>> or <<SuffixTree>>                                             *)
(*   val   has_value: an inserted literal ends here (FALSE for split points)  *)
(*                                                                            *)
(* Defects names mistakes to build in, so that the checks can be shown to     *)
(* notice them; the specified system is the one with Defects = {}.            *)
EXTENDS Matching

CONSTANT Defects

EmptyTrie == [lits |-> <<>>, pars |-> <<>>]
LitNode(s) == [s |-> s, val |-> TRUE, pat |-> 0, node |-> <<>>]
ParNode(p) == [p |-> p, pat |-> 0, node |-> <<>>]

NoChar == -1
FirstChar(s) == IF s = <<>> THEN NoChar ELSE s[1]

(* index of the literal child that begins like s, 0 if there is none *)
ChildAt(node, s) ==
    LET hits == {j \in 1..Len(node.lits) : FirstChar(node.lits[j].s) = FirstChar(s)}
    IN  IF hits = {} THEN 0 ELSE MinOf(hits)

PlaceFor(node, s) ==
    1 + Cardinality({j \in 1..Len(node.lits) : FirstChar(node.lits[j].s) < FirstChar(s)})

AddLitNode(node, c) == [node EXCEPT !.lits = InsertedAt(@, PlaceFor(node, c.s), c)]

(* a parser child is found by the identity of its parser *)
ParserKey(p) == IF "forgets_bounds" \in Defects THEN <<p.t, p.name, p.cs, p.end>> ELSE p
ParserAt(node, p) ==
    LET hits == {j \in 1..Len(node.pars) : ParserKey(node.pars[j].p) = ParserKey(p)}
    IN  IF hits = {} THEN 0 ELSE MinOf(hits)

-----------------------------------------------------------------------------
(* Lookup of a literal: LitLookup(node, s) iff it was inserted.               *)
RECURSIVE LitLookup(_, _)
LitLookup(node, s) ==
    LET pos == ChildAt(node, s)
    IN  IF pos = 0 THEN FALSE
        ELSE LET c == node.lits[pos]
                 n == CommonLen(c.s, s)
             IN  IF c.node = <<>> THEN c.s = s
                 ELSE IF n < Len(c.s) THEN FALSE
                 ELSE IF c.val /\ n = Len(s) THEN TRUE
                 ELSE LitLookup(c.node[1], From(s, n + 1))

(* What a lookup in vain has left of s, in bytes: it went down the edges that *)
(* s goes along, as far as they go on.                                        *)
RECURSIVE LitLeft(_, _)
LitLeft(node, s) ==
    LET pos == ChildAt(node, s)
    IN  IF pos = 0 THEN Bytes(s, Len(s))
        ELSE LET c == node.lits[pos]
                 n == CommonLen(c.s, s)
             IN  IF c.node = <<>> \/ n < Len(c.s) THEN Bytes(s, Len(s))
                 ELSE LitLeft(c.node[1], From(s, n + 1))

-----------------------------------------------------------------------------
RECURSIVE TrieInsert(_, _, _), EntryInsert(_, _, _), LitInsert(_, _, _, _)

(* hang the rest of a pattern on a literal or parser entry *)
EntryInsert(entry, rest, id) ==
    IF rest = <<>> THEN [entry EXCEPT !.pat = id]
    ELSE LET child == IF entry.node = <<>> \/ "overwrites_child" \in Defects
                      THEN EmptyTrie ELSE entry.node[1]
         IN  [entry EXCEPT !.node = <<TrieInsert(child, rest, id)>>]

(* rest = <<NoEntry>>: only the literal itself is inserted *)
NoEntry == [t |-> "none"]
Hang(entry, rest, id) == IF rest = <<NoEntry>> THEN entry ELSE EntryInsert(entry, rest, id)

LitInsert(node, s, rest, id) ==
    LET pos == ChildAt(node, s)
    IN  IF pos = 0 THEN AddLitNode(node, Hang(LitNode(s), rest, id))
        ELSE LET c     == node.lits[pos]
                 n     == CommonLen(c.s, s)
                 found == IF c.node = <<>> THEN c.s = s ELSE n = Len(c.s) /\ c.val /\ n = Len(s)
                 down  == c.node # <<>> /\ n = Len(c.s) /\ ~found
                 (* split c after its first n characters *)
                 left  == LitNode(From(s, n + 1))
                 right == [s    |-> From(c.s, n + 1),
                           val  |-> IF "split_forgets_value" \in Defects THEN TRUE ELSE c.val,
                           pat  |-> IF "split_drops_pattern" \in Defects THEN 0 ELSE c.pat,
                           node |-> c.node]
                 fork  == AddLitNode(AddLitNode(EmptyTrie, Hang(left, rest, id)), right)
                 new   == IF found THEN Hang(c, rest, id)
                          ELSE IF down THEN [c EXCEPT !.node = <<LitInsert(c.node[1], From(s, n + 1), rest, id)>>]
                          ELSE [s |-> SubSeq(s, 1, n), val |-> FALSE, pat |-> 0, node |-> <<fork>>]
             IN  [node EXCEPT !.lits[pos] = new]

TrieInsert(node, toks, id) ==
    IF toks = <<>> THEN node
    ELSE IF IsLit(toks[1]) THEN LitInsert(node, toks[1].s, Tail(toks), id)
    ELSE LET pos == ParserAt(node, toks[1])
         IN  IF pos = 0
             THEN [node EXCEPT !.pars = Append(@, EntryInsert(ParNode(toks[1]), Tail(toks), id))]
             ELSE [node EXCEPT !.pars[pos] = EntryInsert(@, Tail(toks), id)]

InsertLiteral(node, s) == LitInsert(node, s, <<NoEntry>>, 0)

-----------------------------------------------------------------------------
(* Searching.  The result is <<>> (no match) or <<id, values>>: the values    *)
(* are collected while the search unwinds, so the leftmost of the parsers     *)
(* with the same name has the last word.                                      *)
NoMatch == <<>>
Hit(id) == <<id, {}>>
Push(p, value, r) ==
    IF p.name = <<>> THEN r
    ELSE <<r[1], {kv \in r[2] : kv[1] # p.name[1]} \cup {<<p.name[1], value>>}>>

RECURSIVE TrieParse(_, _, _), ViaParsers(_, _, _, _)

AtEnd(t, i) == i = Len(t) + 1

ViaLiteral(node, pos, t, i) ==
    IF pos = 0 THEN NoMatch
    ELSE LET c == node.lits[pos]
             e == i + Len(c.s)
         IN  IF ~PrefixAt(t, i, c.s) THEN NoMatch
             ELSE IF c.pat # 0 /\ AtEnd(t, e) THEN Hit(c.pat)
             ELSE IF c.node = <<>> THEN NoMatch
             ELSE TrieParse(c.node[1], t, e)

ViaParser(c, t, i) ==
    LET e == ParseEnd(c.p, t, i)
    IN  IF e = 0 THEN NoMatch
        ELSE LET own == c.pat # 0 /\ AtEnd(t, e) /\ ("parser_with_child_never_ends" \in Defects => c.node = <<>>)
                 r   == IF own THEN Hit(c.pat)
                        ELSE IF c.node = <<>> THEN NoMatch
                        ELSE TrieParse(c.node[1], t, e)
             IN  IF r = NoMatch THEN NoMatch ELSE Push(c.p, Piece(t, i, e), r)

ViaParsers(node, j, t, i) ==
    IF j > Len(node.pars) THEN NoMatch
    ELSE LET r == ViaParser(node.pars[j], t, i)
         IN  IF r # NoMatch THEN r ELSE ViaParsers(node, j + 1, t, i)

TrieParse(node, t, i) ==
    LET begins == ViaLiteral(node, ChildAt(node, From(t, i)), t, i)
        empty  == IF AtEnd(t, i) \/ "skips_empty_literal" \in Defects
                  THEN NoMatch ELSE ViaLiteral(node, ChildAt(node, <<>>), t, i)
        stuck  == "no_fallback" \in Defects /\ ~AtEnd(t, i)
                  /\ ChildAt(node, From(t, i)) # 0
                  /\ PrefixAt(t, i, node.lits[ChildAt(node, From(t, i))].s)
    IN  IF begins # NoMatch THEN begins
        ELSE IF empty # NoMatch THEN empty
        ELSE IF stuck THEN NoMatch
        ELSE ViaParsers(node, 1, t, i)

TrieAnswer(trie, t) == TrieParse(trie, t, 1)

-----------------------------------------------------------------------------
(* What every reachable trie looks like.                                      *)
RECURSIVE TrieOk(_, _)
TrieOk(node, root) ==
    /\ \A j \in 1..(Len(node.lits) - 1) : FirstChar(node.lits[j].s) < FirstChar(node.lits[j + 1].s)
    /\ \A j, k \in 1..Len(node.pars) : j # k => node.pars[j].p # node.pars[k].p
    /\ \A j \in 1..Len(node.lits) :
          LET c == node.lits[j]
          IN  /\ c.node = <<>> => (c.val /\ c.pat # 0)         \* leaves carry a pattern
              /\ ~c.val => (Len(c.s) > 0 /\ c.pat = 0 /\ c.node # <<>> /\ Len(c.node[1].lits) >= 2)
              /\ c.node # <<>> => TrieOk(c.node[1], FALSE)
    /\ \A j \in 1..Len(node.pars) :
          LET c == node.pars[j]
          IN  /\ (c.node = <<>>) => c.pat # 0
              /\ c.node # <<>> => TrieOk(c.node[1], FALSE)
    /\ root \/ Len(node.lits) + Len(node.pars) > 0
=============================================================================
