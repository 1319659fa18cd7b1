-------------------------------- MODULE MC_Files ------------------------------
(* File names put together from fragments: the format they stand for.         *)
EXTENDS Documents, TLC, Json
CONSTANTS MaxPieces, DoEmit
Frag == {<<Dot>>, <<Slash>>, <<102>>, <<Space>>, <<233>>, <<Slash, 100, Dot>>, json, <<74,83,79,78>>, <<74,115,111,110>>,
         <<121,97,109,108>>, <<121,109,108>>, <<89,65,77,76>>, <<89,77,76>>, <<89,97,109,108>>,
         <<116,120,116>>, <<Dot,106,115,111,110>>, <<Dot,121,97,109,108>>, <<Dot,121,109,108>>}
VARIABLES path, n
Init == path = <<>> /\ n = 0
Next == n < MaxPieces /\ n' = n + 1 /\ \E f \in Frag : path' = path \o f
Components(p) ==
    LET cut == {0, Len(p) + 1} \cup {j \in 1..Len(p) : p[j] = Slash}
    IN  {SubSeq(p, i + 1, MinOf({j \in cut : j > i}) - 1) : i \in cut \ {Len(p) + 1}}
Proper == path # <<>> /\ \A c \in Components(path) : c \notin {<<>>, <<Dot>>, <<Dot, Dot>>}
(* only the last component matters, and nothing before its last dot *)
LastOnly == Proper => /\ Format(path) = Format(FileName(path))
                      /\ Format(<<102, Slash>> \o path) = Format(path)
                      /\ Format(path) # "unsupported" => Format(<<102>> \o FileName(path)) = Format(path)
(* what may be found under that name, and what then comes of loading it       *)
Outcome(st) == OutcomeOf(path, st)
States == Unreadable \cup Acceptable \cup Malformed
NothingHidden == Proper => \A st \in States :
    /\ Outcome(st) = "ok" => st \in Acceptable
    /\ Outcome(st) = "unsupported" <=> Format(path) = "unsupported"
Emit == (DoEmit /\ Proper) =>
    PrintT(ToJson([k |-> "path", path |-> path, format |-> Format(path), outs |-> [st \in States |-> Outcome(st)]]))
=============================================================================
