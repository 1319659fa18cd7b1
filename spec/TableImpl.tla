------------------------------- MODULE TableImpl ------------------------------
(* The suffix-array matcher as it is built: src/matcher/suffix_array.         *)
(*                                                                            *)
(* SuffixTable  [ents, prs]: literal entries ordered by their whole literal,  *)
(*              parser entries in the order of their insertion                *)
(* entries      [s | p, pat, child] with child <<>> or <<SuffixTable>>        *)
EXTENDS TrieImpl

EmptyTable == [ents |-> <<>>, prs |-> <<>>]
LitEntry(s) == [s |-> s, pat |-> 0, child |-> <<>>]
ParEntry(p) == [p |-> p, pat |-> 0, child |-> <<>>]

EntryAt(tab, s) ==
    LET hits == {j \in 1..Len(tab.ents) : tab.ents[j].s = s}
    IN  IF hits = {} THEN 0 ELSE MinOf(hits)
EntryPlace(tab, s) == 1 + Cardinality({j \in 1..Len(tab.ents) : Less(tab.ents[j].s, s)})
ParEntryAt(tab, p) ==
    LET hits == {j \in 1..Len(tab.prs) : ParserKey(tab.prs[j].p) = ParserKey(p)}
    IN  IF hits = {} THEN 0 ELSE MinOf(hits)

RECURSIVE TableInsert(_, _, _), TabEntryInsert(_, _, _)
TabEntryInsert(entry, rest, id) ==
    IF rest = <<>> THEN [entry EXCEPT !.pat = id]
    ELSE LET child == IF entry.child = <<>> \/ "overwrites_child" \in Defects
                      THEN EmptyTable ELSE entry.child[1]
         IN  [entry EXCEPT !.child = <<TableInsert(child, rest, id)>>]

TableInsert(tab, toks, id) ==
    IF toks = <<>> THEN tab
    ELSE IF IsLit(toks[1])
    THEN LET pos == EntryAt(tab, toks[1].s)
         IN  IF pos = 0
             THEN [tab EXCEPT !.ents = InsertedAt(@, EntryPlace(tab, toks[1].s),
                                           TabEntryInsert(LitEntry(toks[1].s), Tail(toks), id))]
             ELSE [tab EXCEPT !.ents[pos] = TabEntryInsert(@, Tail(toks), id)]
    ELSE LET pos == ParEntryAt(tab, toks[1])
         IN  IF pos = 0
             THEN [tab EXCEPT !.prs = Append(@, TabEntryInsert(ParEntry(toks[1]), Tail(toks), id))]
             ELSE [tab EXCEPT !.prs[pos] = TabEntryInsert(@, Tail(toks), id)]

-----------------------------------------------------------------------------
(* The entry that shares most with the text: the one itself, or the better of *)
(* the two neighbours of the place where the text would be inserted (the      *)
(* earlier one if they are equally good); 0 for an empty table.               *)
LongestCommon(tab, t) ==
    LET n     == Len(tab.ents)
        exact == EntryAt(tab, t)
        pos   == EntryPlace(tab, t)
        Share(j) == CommonLen(tab.ents[j].s, t)
    IN  IF n = 0 THEN 0
        ELSE IF exact # 0 THEN exact
        ELSE IF pos = 1 THEN 1
        ELSE IF pos > n THEN n
        ELSE IF Share(pos - 1) >= Share(pos) THEN pos - 1 ELSE pos

RECURSIVE TableParse(_, _, _), ViaEntries(_, _, _, _), ViaParEntries(_, _, _, _)

EnterEntry(c, t, e) ==
    IF c.pat # 0 /\ AtEnd(t, e) THEN Hit(c.pat)
    ELSE IF c.child = <<>> THEN NoMatch
    ELSE TableParse(c.child[1], t, e)

(* literal entries that begin the text, from the longest to the shortest *)
ViaEntries(tab, n, t, i) ==
    IF n < 0 THEN NoMatch
    ELSE LET pos == EntryAt(tab, Piece(t, i, i + n))
             r   == IF pos = 0 THEN NoMatch ELSE EnterEntry(tab.ents[pos], t, i + n)
         IN  IF r # NoMatch THEN r
             ELSE IF pos # 0 /\ "only_longest_literal" \in Defects THEN NoMatch
             ELSE ViaEntries(tab, n - 1, t, i)

ViaParEntries(tab, j, t, i) ==
    IF j > Len(tab.prs) THEN NoMatch
    ELSE LET c   == tab.prs[j]
             e   == ParseEnd(c.p, t, i)
             own == e # 0 /\ c.pat # 0 /\ AtEnd(t, e)
                    /\ ("parser_with_child_never_ends" \in Defects => c.child = <<>>)
             r0  == IF e = 0 THEN NoMatch
                    ELSE IF own THEN Hit(c.pat)
                    ELSE IF c.child = <<>> THEN NoMatch
                    ELSE TableParse(c.child[1], t, e)
             r   == IF r0 = NoMatch THEN NoMatch ELSE Push(c.p, Piece(t, i, e), r0)
         IN  IF r # NoMatch THEN r ELSE ViaParEntries(tab, j + 1, t, i)

TableParse(tab, t, i) ==
    LET rest == From(t, i)
        lcp  == LongestCommon(tab, rest)
        n    == IF lcp = 0 THEN 0 ELSE CommonLen(tab.ents[lcp].s, rest)
        part == lcp # 0 /\ n < Len(tab.ents[lcp].s)
        r    == IF "accepts_partial_literal" \in Defects /\ part /\ n > 0
                THEN EnterEntry(tab.ents[lcp], t, i + n)
                ELSE ViaEntries(tab, n, t, i)
    IN  IF r # NoMatch THEN r
        ELSE IF "literals_hide_parsers" \in Defects /\ Len(tab.ents) > 0 THEN NoMatch
        ELSE ViaParEntries(tab, 1, t, i)

TableAnswer(tab, t) == TableParse(tab, t, 1)

RECURSIVE TableOk(_, _)
TableOk(tab, root) ==
    /\ \A j \in 1..(Len(tab.ents) - 1) : Less(tab.ents[j].s, tab.ents[j + 1].s)
    /\ \A j, k \in 1..Len(tab.prs) : j # k => tab.prs[j].p # tab.prs[k].p
    /\ \A j \in 1..Len(tab.ents) : (tab.ents[j].pat # 0 \/ tab.ents[j].child # <<>>)
                                   /\ (tab.ents[j].child # <<>> => TableOk(tab.ents[j].child[1], FALSE))
    /\ \A j \in 1..Len(tab.prs) : (tab.prs[j].pat # 0 \/ tab.prs[j].child # <<>>)
                                  /\ (tab.prs[j].child # <<>> => TableOk(tab.prs[j].child[1], FALSE))
    /\ root \/ Len(tab.ents) + Len(tab.prs) > 0
=============================================================================
