---------------------------------- MODULE Parts -------------------------------
(* What patterns are put together from and taken apart into: tokens go into a *)
(* builder, which can be asked for its tokens again and again; a pattern gives *)
(* its tokens away from the first on and its test messages from the last on,  *)
(* each of them once; a copy of a pattern shares nothing with the original.   *)
EXTENDS Integers, Sequences, SequencesExt

Emptied(s) == SubSeq(s, 2, Len(s))
Shortened(s) == SubSeq(s, 1, Len(s) - 1)

(* what is handed out: <<>> if there is nothing left                          *)
FirstToken(o) == IF o.toks = <<>> THEN <<>> ELSE <<Head(o.toks)>>
LastTest(o) == IF o.tests = <<>> THEN <<>> ELSE <<Last(o.tests)>>
(* what is left                                                               *)
TokenGone(o) == [o EXCEPT !.toks = IF @ = <<>> THEN @ ELSE Emptied(@)]
TestGone(o) == [o EXCEPT !.tests = IF @ = <<>> THEN @ ELSE Shortened(@)]
Retold(o, toks) == [o EXCEPT !.toks = toks]
=============================================================================
