--------------------------------- MODULE Utils --------------------------------
(* The helpers of src/utils: an ordered vector that is kept in order by       *)
(* sorting and searched by bisection, and prefixes of UTF-8 encoded texts.    *)
EXTENDS Text

(* the elements in ascending order, x placed after those equal to it *)
Placed(v, x) == LET p == 1 + Cardinality({j \in 1..Len(v) : Less(v[j], x) \/ v[j] = x}) IN InsertedAt(v, p, x)
Ordered(v) == \A j \in 1..(Len(v) - 1) : Less(v[j], v[j + 1]) \/ v[j] = v[j + 1]
Count(v, x) == Cardinality({j \in 1..Len(v) : v[j] = x})

(* bisection between lo and hi (exclusive): <<1, position of x>> or           *)
(* <<0, position at which x could be inserted>>                               *)
RECURSIVE Bisect(_, _, _, _)
Bisect(v, x, lo, hi) ==
    IF lo >= hi THEN <<0, lo>>
    ELSE LET mid == (lo + hi) \div 2
         IN  IF v[mid] = x THEN <<1, mid>>
             ELSE IF Less(v[mid], x) THEN Bisect(v, x, mid + 1, hi)
             ELSE Bisect(v, x, lo, mid)
Search(v, x) == Bisect(v, x, 1, Len(v) + 1)

-----------------------------------------------------------------------------
(* UTF-8 *)
Enc(c) ==
    CASE c < 128 -> <<c>>
      [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
      [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
      [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Encoded(_)
Encoded(t) == IF t = <<>> THEN <<>> ELSE Enc(t[1]) \o Encoded(Tail(t))
(* the positions between the characters, as byte counts *)
Boundaries(t) == {Bytes(t, n) : n \in 0..Len(t)}
(* the longest common prefix of the encodings, cut back to a boundary of both *)
CommonBytes(x, y) ==
    LET n  == CommonLen(Encoded(x), Encoded(y))
        ok == {k \in 0..n : k \in Boundaries(x) /\ k \in Boundaries(y)}
    IN  MaxOf(ok)
=============================================================================
