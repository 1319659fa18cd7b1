------------------------------- MODULE IndexImpl ------------------------------
(* The system as it is built: every matcher maintains its index, in the one   *)
(* implementation a trie and in the other a table of sorted literals.         *)
(* Refines ActionDB.                                                          *)
EXTENDS TableImpl

CONSTANTS Handles, PatternIds, Toks(_), MaxHist

VARIABLES hist, trie, table
vars == <<hist, trie, table>>

Abs == INSTANCE ActionDB
Live == Abs!Live

Init == Abs!Init /\ trie = [h \in Handles |-> EmptyTrie] /\ table = [h \in Handles |-> EmptyTable]

New(h) == Abs!New(h) /\ UNCHANGED <<trie, table>>

Add(h, p) ==
    /\ Abs!Add(h, p)
    /\ LET id == Len(hist[h]) + 1
       IN  /\ trie'  = [trie  EXCEPT ![h] = TrieInsert(@, Toks(p), id)]
           /\ table' = [table EXCEPT ![h] = TableInsert(@, Toks(p), id)]

Clone(h, g) ==
    /\ Abs!Clone(h, g)
    /\ trie'  = [trie  EXCEPT ![g] = trie[h]]
    /\ table' = [table EXCEPT ![g] = table[h]]

Next ==
    \/ \E h \in Handles : New(h)
    \/ \E h \in Handles, p \in PatternIds : Add(h, p)
    \/ \E h, g \in Handles : h # g /\ Clone(h, g)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
IndexOk(texts) ==
    \A h \in Live : \A t \in texts :
        LET a == TrieAnswer(trie[h], t)
            b == TableAnswer(table[h], t)
        IN  /\ Abs!SoundAt(h, t, a) /\ Abs!CompleteAt(h, t, a)
            /\ Abs!WinnerAt(h, t, a) /\ Abs!ValuesAt(h, t, a)
            /\ a = b                                     \* C04
            /\ a = Abs!Answer(h, t)

(* whatever the patterns are, canonical or not *)
IndexSafe(texts) ==
    \A h \in Live : \A t \in texts :
        LET a == TrieAnswer(trie[h], t)
            b == TableAnswer(table[h], t)
        IN  /\ Abs!SoundAt(h, t, a) /\ Abs!CompleteAt(h, t, a)
            /\ Abs!SoundAt(h, t, b) /\ Abs!CompleteAt(h, t, b)

ShapeOk == \A h \in Live : TrieOk(trie[h], TRUE) /\ TableOk(table[h], TRUE)

(* the index is a function of the history alone, so that clones with the same *)
(* history are indistinguishable, and only adding to a matcher changes it     *)
Functional ==
    \A h, g \in Live : hist[h] = hist[g] => (trie[h] = trie[g] /\ table[h] = table[g])
Isolation ==
    [][\A h \in Handles : (trie'[h] # trie[h] \/ table'[h] # table[h]) => hist'[h] # hist[h]]_vars
=============================================================================
