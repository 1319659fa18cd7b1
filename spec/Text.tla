-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of Unicode code points (natural numbers).  All        *)
(* positions are 1-based; a text of length n has the end position n + 1.     *)
EXTENDS Integers, Sequences, FiniteSets

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == 0 - MinOf({0 - x : x \in S})     \* TLC looks at ascending sets from below

(* the text s occurs in t at position i *)
PrefixAt(t, i, s) ==
    /\ i + Len(s) - 1 <= Len(t)
    /\ Len(s) = 0 \/ t[i] = s[1]
    /\ SubSeq(t, i, i + Len(s) - 1) = s

(* first position >= i at which s occurs in t; 0 if there is none.  (TLC      *)
(* looks at the next few positions first.)                                    *)
Near == 128
FirstAt(t, i, s) ==
    LET last == Len(t) - Len(s) + 1
        mid  == IF i + Near < last THEN i + Near ELSE last
        near == {j \in i..mid : (Len(s) = 0 \/ t[j] = s[1]) /\ PrefixAt(t, j, s)}
        far  == {j \in (mid + 1)..last : (Len(s) = 0 \/ t[j] = s[1]) /\ PrefixAt(t, j, s)}
    IN  IF near # {} THEN MinOf(near) ELSE IF far # {} THEN MinOf(far) ELSE 0

(* end (exclusive) of the longest run of characters of cs starting at i *)
RunEnd(t, i, cs) ==
    LET mid  == IF i + Near < Len(t) THEN i + Near ELSE Len(t)
        near == {j \in i..mid : t[j] \notin cs}
        far  == {j \in (mid + 1)..Len(t) : t[j] \notin cs}
    IN  IF near # {} THEN MinOf(near) ELSE IF far # {} THEN MinOf(far) ELSE Len(t) + 1

(* the piece of t from position i up to, but excluding, position j *)
Piece(t, i, j) == SubSeq(t, i, j - 1)

From(t, i) == SubSeq(t, i, Len(t))

(* number of characters of the longest common prefix *)
CommonLen(a, b) ==
    LET n    == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        diff == {j \in 1..n : a[j] # b[j]}
    IN  IF diff = {} THEN n ELSE MinOf(diff) - 1

IsPrefixOf(a, b) == PrefixAt(b, 1, a)

(* lexicographic order by code point = byte order of the UTF-8 encodings *)
Less(a, b) ==
    LET n == CommonLen(a, b)
    IN  IF n = Len(a) THEN n < Len(b)
        ELSE IF n = Len(b) THEN FALSE
        ELSE a[n + 1] < b[n + 1]

(* length in bytes of the UTF-8 encoding *)
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2
              ELSE IF c < 65536 THEN 3 ELSE 4

(* bytes taken by the first n characters of t *)
Bytes(t, n) ==
    LET Count(w) == Cardinality({j \in 1..n : Utf8Len(t[j]) = w})
    IN  Count(1) + 2 * Count(2) + 3 * Count(3) + 4 * Count(4)

(* Where the members of a set of texts part: after the first k characters of  *)
(* t, if not all that begin so go on alike (or some end there).               *)
PartAt(ts, t) == {k \in {CommonLen(u, t) : u \in ts} :
    Cardinality({IF Len(u) = k THEN -1 ELSE u[k + 1] : u \in {w \in ts : CommonLen(w, t) >= k}}) > 1}
(* what is left of a text when the longest of these beginnings is taken off,  *)
(* in bytes                                                                   *)
LeftOver(ts, t) == Bytes(t, Len(t)) - Bytes(t, MaxOf(PartAt(ts, t) \cup {0}))

SetOfSeq(s) == {s[j] : j \in 1..Len(s)}

(* the sequence s without its element i / with x inserted before element i   *)
Without(s, i)      == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertedAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
=============================================================================
