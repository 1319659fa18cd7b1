--------------------------------- MODULE MC_Vec -------------------------------
(* The ordered vector: all sequences of at most MaxSteps operations.          *)
EXTENDS Utils, TLC, Json
CONSTANTS MaxSteps, DoEmit
Items == { <<>>, <<97>>, <<97, 98>>, <<233>> }
VARIABLES vec, path, bag
Init == vec = <<>> /\ path = <<>> /\ bag = [x \in Items |-> 0]
Push(x) == vec' = Placed(vec, x) /\ path' = Append(path, <<"push", x>>) /\ bag' = [bag EXCEPT ![x] = @ + 1]
Remove(i) == /\ vec' = Without(vec, i) /\ path' = Append(path, <<"remove", i>>)
             /\ bag' = [bag EXCEPT ![vec[i]] = @ - 1]
Next == Len(path) < MaxSteps /\ ((\E x \in Items : Push(x)) \/ (\E i \in 1..Len(vec) : Remove(i)))
(* C21 *)
InOrder == Ordered(vec)
Complete == \A x \in Items : Count(vec, x) = bag[x]
Findable == \A x \in Items :
    LET r == Search(vec, x)
    IN  IF bag[x] > 0 THEN r[1] = 1 /\ vec[r[2]] = x
        ELSE r[1] = 0 /\ InsertedAt(vec, r[2], x) = Placed(vec, x)
Emit == DoEmit => PrintT(ToJson([k |-> "vec", path |-> path, all |-> vec]))
=============================================================================
