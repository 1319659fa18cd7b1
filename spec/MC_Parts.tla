-------------------------------- MODULE MC_Parts ------------------------------
(* All ways to put patterns together, copy them and take them apart in at     *)
(* most MaxSteps steps.  The steps and what each of them has to hand out are  *)
(* part of the state, so that every behaviour is emitted for the replay.      *)
EXTENDS Parts, ParserSem, TLC, Json
CONSTANTS MaxSteps, DoEmit
VARIABLES objs,    \* the patterns, in the order of their creation
          bld,     \* the tokens in the builder
          given,   \* per pattern: what was put in
          gone,    \* per pattern: what was handed out
          path
vars == <<objs, bld, given, gone, path>>

a == 97  b == 98  x == <<120>>
Tokens == << Lit(<<a>>), Lit(<<b>>), IntP(<<x>>, 2, NoBound), GreedyP(<<>>, <<<<b>>>>) >>
Whole == [toks |-> <<1, 3, 2>>, tests |-> <<1, 2>>]
Bare  == [toks |-> <<>>, tests |-> <<>>]

Nothing == [toks |-> <<>>, tests |-> <<>>]
Init == objs = <<>> /\ bld = <<>> /\ given = <<>> /\ gone = <<>> /\ path = <<>>
Step(s) == path' = Append(path, s)
Live == 1..Len(objs)

New(o) ==
    /\ Len(objs) < 2
    /\ objs' = Append(objs, o) /\ given' = Append(given, o) /\ gone' = Append(gone, Nothing)
    /\ Step(<<"new", o.toks, o.tests>>) /\ UNCHANGED bld
Copy(h) ==
    /\ Len(objs) < 3
    /\ objs' = Append(objs, objs[h]) /\ given' = Append(given, objs[h]) /\ gone' = Append(gone, Nothing)
    /\ Step(<<"copy", h>>) /\ UNCHANGED bld
Token(h) ==
    /\ objs' = [objs EXCEPT ![h] = TokenGone(@)]
    /\ gone' = [gone EXCEPT ![h].toks = @ \o FirstToken(objs[h])]
    /\ Step(<<"tok", h, FirstToken(objs[h])>>) /\ UNCHANGED <<bld, given>>
Test(h) ==
    /\ objs' = [objs EXCEPT ![h] = TestGone(@)]
    /\ gone' = [gone EXCEPT ![h].tests = LastTest(objs[h]) \o @]
    /\ Step(<<"test", h, LastTest(objs[h])>>) /\ UNCHANGED <<bld, given>>
Put(k) ==
    /\ Len(bld) < 3 /\ bld' = Append(bld, k)
    /\ Step(<<"put", k>>) /\ UNCHANGED <<objs, given, gone>>
Build(h) ==
    /\ objs' = [objs EXCEPT ![h] = Retold(@, bld)]
    /\ given' = [given EXCEPT ![h].toks = bld] /\ gone' = [gone EXCEPT ![h].toks = <<>>]
    /\ Step(<<"build", h, bld>>) /\ UNCHANGED bld

Next ==
    /\ Len(path) < MaxSteps
    /\ \/ \E o \in {Whole, Bare} : New(o)
       \/ \E h \in Live : Copy(h) \/ Token(h) \/ Test(h) \/ Build(h)
       \/ \E k \in {1, 4} : Put(k)

(* every part is handed out once and in order, or is still there              *)
OnceEach == \A h \in Live : /\ gone[h].toks \o objs[h].toks = given[h].toks
                            /\ objs[h].tests \o gone[h].tests = given[h].tests
(* nothing but what is done to a pattern changes it                           *)
Apart == [][\A h \in Live : objs'[h] # objs[h] => \E s \in {path'[Len(path')]} : s[1] \in {"tok", "test", "build"} /\ s[2] = h]_vars

ASSUME Header == DoEmit => PrintT(ToJson([k |-> "tokens", v |-> Tokens]))
Emit == (DoEmit /\ Len(path) = MaxSteps) => PrintT(ToJson([k |-> "parts", path |-> path, left |-> objs]))
=============================================================================
