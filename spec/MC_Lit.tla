--------------------------------- MODULE MC_Lit -------------------------------
(* The literal index: all sequences of at most MaxIns insertions of literals, *)
(* looked up by every text of at most MaxText characters.                     *)
EXTENDS TrieImpl, TLC, Json
CONSTANTS MaxIns, MaxLen, MaxText, DoEmit

a == 97  b == 98  e1 == 233  e2 == 232
AlphaSeq == <<a, e1, e2>>
K == Len(AlphaSeq)
RECURSIVE AllOf(_)
AllOf(n) == IF n = 0 THEN <<<<>>>>
            ELSE LET prev == AllOf(n - 1)
                 IN  [k \in 1..(K * Len(prev)) |-> Append(prev[((k - 1) \div K) + 1], AlphaSeq[((k - 1) % K) + 1])]
RECURSIVE UpTo(_)
UpTo(n) == IF n = 0 THEN <<>> ELSE UpTo(n - 1) \o AllOf(n)
TextSeq == TLCEval(UpTo(MaxText))
LitsUniverse == SetOfSeq(UpTo(MaxLen))

VARIABLES ins, tree
Init == ins = <<>> /\ tree = EmptyTrie
Next == \E s \in LitsUniverse :
           /\ Len(ins) < MaxIns
           /\ ins' = Append(ins, s)
           /\ tree' = InsertLiteral(tree, s)
Inserted == SetOfSeq(ins)
Exact == \A j \in 1..Len(TextSeq) : LitLookup(tree, TextSeq[j]) <=> TextSeq[j] \in Inserted
Left == [j \in 1..Len(TextSeq) |-> IF TextSeq[j] \in Inserted THEN 0 ELSE LeftOver(Inserted, TextSeq[j])]
Rest == \A j \in 1..Len(TextSeq) : TextSeq[j] \notin Inserted => LitLeft(tree, TextSeq[j]) = LeftOver(Inserted, TextSeq[j])
(* siblings begin differently and are in order, inner split points fork *)
RECURSIVE ShapeOk(_)
ShapeOk(node) ==
    /\ \A j \in 1..(Len(node.lits) - 1) : FirstChar(node.lits[j].s) < FirstChar(node.lits[j + 1].s)
    /\ \A j \in 1..Len(node.lits) :
          LET c == node.lits[j]
          IN  /\ ~c.val => c.node # <<>> /\ Len(c.node[1].lits) >= 2
              /\ c.node # <<>> => ShapeOk(c.node[1])
Shape == ShapeOk(tree)
NothingLost == [][\A s \in Inserted : LitLookup(tree', s)]_<<ins, tree>>

ASSUME Header == DoEmit => PrintT(ToJson([k |-> "texts", v |-> TextSeq]))
Emit == DoEmit => PrintT(ToJson([k |-> "lits", ins |-> ins, left |-> Left,
                                 found |-> {j \in 1..Len(TextSeq) : TextSeq[j] \in Inserted}]))
=============================================================================
