-------------------------------- MODULE Loading -------------------------------
(* Building a matcher from a source of patterns (src/matcher/pattern_source,  *)
(* pattern_loader): strictly or ignoring errors.                              *)
(*                                                                            *)
(* An item of the source is  [bad, id, toks, values, tags, tests]; bad items  *)
(* could not be read.  The items are taken in the order of the source; a file *)
(* is a source that gives its patterns from the last to the first.            *)
(*                                                                            *)
(*   todo   the items not yet taken       kept   the items in the matcher     *)
(*   test   the tests of the last kept item which are not yet checked         *)
(*   log    the items reported in the error log                               *)
(*   out    "running" | "done" | "failed"                                     *)
EXTENDS Matching, Verdict

CONSTANTS Sources, Modes, Mistakes

VARIABLES source, mode, todo, kept, test, log, out
lvars == <<source, mode, todo, kept, test, log, out>>

PatOf(item) == [id |-> item.id, values |-> item.values, tags |-> item.tags]
AnswerOf(items, t) ==
    LET b == Best([j \in 1..Len(items) |-> items[j].toks], t)
    IN  IF b = 0 THEN <<>> ELSE <<items[b].id, Values(items[b].toks, t)>>

Init ==
    /\ source \in Sources /\ mode \in Modes
    /\ todo = source /\ kept = <<>> /\ test = <<>> /\ log = <<>> /\ out = "running"

(* take the next item *)
TakeBad ==
    /\ out = "running" /\ test = <<>> /\ todo # <<>> /\ todo[1].bad
    /\ todo' = Tail(todo)
    /\ log' = IF mode = "lenient" THEN Append(log, todo[1].id) ELSE log
    /\ out' = IF mode = "strict" \/ "lenient_gives_up" \in Mistakes THEN "failed" ELSE out
    /\ UNCHANGED <<source, mode, kept, test>>

TakeGood ==
    /\ out = "running" /\ test = <<>> /\ todo # <<>> /\ ~todo[1].bad
    /\ todo' = Tail(todo)
    /\ kept' = Append(kept, todo[1])
    /\ test' = IF "skips_first_test" \in Mistakes /\ todo[1].tests # <<>> THEN Tail(todo[1].tests) ELSE todo[1].tests
    /\ UNCHANGED <<source, mode, log, out>>

(* check one test message of the item added last, from the last one on *)
Check ==
    /\ out = "running" /\ test # <<>>
    /\ LET item == kept[Len(kept)]
           msg  == test[Len(test)]
           ok   == Passes(msg, PatOf(item), AnswerOf(kept, msg.m))
       IN  /\ test' = IF ok THEN SubSeq(test, 1, Len(test) - 1) ELSE <<>>
           /\ log'  = IF ~ok /\ mode = "lenient" THEN Append(log, item.id) ELSE log
           /\ out'  = IF ~ok /\ mode = "strict" THEN "failed" ELSE out
           /\ kept' = IF ~ok /\ "lenient_drops_pattern" \in Mistakes THEN SubSeq(kept, 1, Len(kept) - 1) ELSE kept
    /\ UNCHANGED <<source, mode, todo>>

Finish ==
    /\ out = "running" /\ test = <<>> /\ todo = <<>>
    /\ out' = "done"
    /\ UNCHANGED <<source, mode, todo, kept, test, log>>

Next == TakeBad \/ TakeGood \/ Check \/ Finish
LoadSpec == Init /\ [][Next]_lvars /\ WF_lvars(Next)

-----------------------------------------------------------------------------
(* What the user relies on, without the steps.                                *)
Readable(items) == SelectSeq(items, LAMBDA it : ~it.bad)
ReadableUpTo(items, n) == Readable(SubSeq(items, 1, n))

(* item n is in order: readable and, right after its addition, it passes      *)
ItemPasses(items, n) ==
    /\ ~items[n].bad
    /\ \A j \in 1..Len(items[n].tests) :
          Passes(items[n].tests[j], PatOf(items[n]), AnswerOf(ReadableUpTo(items, n), items[n].tests[j].m))
Failing(items) == {n \in 1..Len(items) : ~ItemPasses(items, n)}

Over == out # "running"
(* C12 *)
StrictAllOrNothing ==
    (Over /\ mode = "strict") =>
        /\ (out = "done") <=> (Failing(source) = {})
        /\ out = "done" => kept = source
        /\ out = "failed" => Len(todo) = Len(source) - MinOf(Failing(source))
        /\ log = <<>>
(* C13 *)
LenientKeepsAll ==
    (Over /\ mode = "lenient") =>
        /\ out = "done"
        /\ kept = Readable(source)
        /\ Len(log) = Cardinality(Failing(source))
        /\ {log[j] : j \in 1..Len(log)} = {source[n].id : n \in Failing(source)}
(* loading comes to an end *)
Terminates == <>Over
=============================================================================
