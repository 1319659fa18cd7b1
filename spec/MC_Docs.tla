-------------------------------- MODULE MC_Docs -------------------------------
(* Documents of one or two patterns in which every field is given in one of   *)
(* several right and wrong ways; at most MaxOdd fields deviate from the plain *)
(* form.  Emits for each document whether it has to be accepted and what the  *)
(* accepted patterns are.                                                     *)
EXTENDS Documents, TLC, Json
CONSTANTS MaxOdd, DoEmit

U36 == <<57,97,52,57,99,52,55,100,45,50,57,101,57,45,52,48,55,50,45,98,101,56,52,45,51,98,55,54,99,54,56,49,52,55,52,51>>
U32 == SelectSeq(U36, LAMBDA c : c # 45)
UP  == [j \in 1..36 |-> IF U36[j] \in 97..102 THEN U36[j] - 32 ELSE U36[j]]
UBad1 == [U36 EXCEPT ![3] = 103]                      \* a "g"
UBad2 == [U36 EXCEPT ![9] = 52, ![10] = 45]           \* a misplaced hyphen
UBad3 == SubSeq(U36, 1, 35)
a == 97
s1 == <<102, 111, 111>>          \* foo
s2 == <<98, 97, 114>>            \* bar
odd == <<34, 92, 10, 233, 128512, 32, 58>>
P1 == <<a>> \o wOPEN \o wINT \o <<58, 110>> \o wCLOSE
P2 == wESC \o wOPEN \o wGREEDY \o wCLOSE \o <<10, 233>>
PBad == wOPEN \o wINT
gone == [t |-> "gone", v |-> <<>>]

M(kvs) == Obj(kvs)
TestVariants == <<
  Obj(<<<<kMessage, Str(<<a, 49>>)>>>>),
  Obj(<<<<kMessage, Str(odd)>>, <<kValues, M(<<<<s1, Str(s2)>>, <<odd, Str(<<>>)>>>>)>>, <<kTags, Arr(<<Str(s1)>>)>>>>),
  Obj(<<<<kTags, Arr(<<>>)>>, <<kMessage, Str(<<>>)>>>>),
  Obj(<<<<kValues, M(<<>>)>>>>),
  Obj(<<<<kMessage, Other>>>>),
  Obj(<<<<kMessage, Str(s1)>>, <<kValues, M(<<<<s1, Other>>>>)>>>>),
  Obj(<<<<kMessage, Str(s1)>>, <<kValues, Str(s1)>>>>),
  Obj(<<<<kMessage, Str(s1)>>, <<kTags, Arr(<<Str(s1), Other>>)>>>>),
  Obj(<<<<kMessage, Str(s1)>>, <<kTags, Str(s1)>>>>),
  Obj(<<<<kMessage, Str(s1)>>, <<s1, Str(s1)>>>>),
  Obj(<<<<kMessage, Str(s1)>>, <<kName, Str(s1)>>>>),
  Obj(<<<<kMessage, Null>>>>),
  Obj(<<<<kMessage, Str(s1)>>, <<kValues, Null>>, <<kTags, Null>>>>),
  Obj(<<<<kMessage, Str(s1)>>, <<kValues, M(<<<<s1, Null>>>>)>>>>),
  Obj(<<<<kMessage, Str(s1)>>, <<kTags, Arr(<<Null>>)>>>>),
  Str(s1), Other, Null, Arr(<<Str(s1)>>)
>>
Variants == [
  uuid    |-> <<Str(U36), gone, Str(U32), Str(UP), Str(Urn \o U36), Str(UBad1), Str(UBad2), Str(UBad3), Str(<<>>),
                Str(U36 \o <<48>>), Other, Arr(<<Str(U36)>>), Str(Urn \o U32), Null>>,
  pattern |-> <<Str(P1), gone, Str(P2), Str(PBad), Str(<<>>), Other, Null, Arr(<<Str(P1)>>)>>,
  name    |-> <<gone, Str(s1), Str(odd), Str(<<>>), Other, Null, Arr(<<>>), Obj(<<>>)>>,
  values  |-> <<gone, M(<<>>), M(<<<<s1, Str(s2)>>, <<s2, Str(s1)>>, <<odd, Str(odd)>>>>), M(<<<<s1, Other>>>>),
                M(<<<<s1, Arr(<<>>)>>>>), M(<<<<s1, Null>>>>), Str(s1), Other, Null, Arr(<<Str(s1)>>)>>,
  tags    |-> <<gone, Arr(<<>>), Arr(<<Str(s1), Str(s1), Str(odd)>>), Arr(<<Other>>), Str(s1), Other, M(<<<<s1, Str(s1)>>>>),
                Arr(<<Str(s1), Arr(<<>>)>>), Arr(<<Null>>), Null>>,
  tests   |-> <<gone, Arr(<<>>)>> \o [j \in 1..Len(TestVariants) |-> Arr(<<TestVariants[1], TestVariants[j]>>)]
              \o <<Str(s1), Other, Null, TestVariants[1]>>,
  extra   |-> <<gone, Str(s1), Other, Null, Obj(<<>>)>>,
  second  |-> <<gone, Obj(<<<<kUuid, Str(U32)>>, <<kPattern, Str(P2)>>>>), Obj(<<<<kUuid, Str(U32)>>>>), Other, Null, Str(s1), Obj(<<>>)>>,
  top     |-> <<"plain", "extra", "nopatterns", "notarray", "array", "null", "scalar", "string", "empty", "nulllist">>]

Fields == DOMAIN Variants
VARIABLE pick
Odd(p) == Cardinality({f \in Fields : p[f] # 1})
Init == pick = [f \in Fields |-> 1]
Next == \E f \in Fields : /\ pick[f] = 1 /\ Odd(pick) < MaxOdd
                          /\ \E k \in 2..Len(Variants[f]) : pick' = [pick EXCEPT ![f] = k]

Chosen(f) == Variants[f][pick[f]]
Given(kvs) == SelectSeq(kvs, LAMBDA kv : kv[2].t # "gone")
PatDoc == Obj(Given(<< <<kName, Chosen("name")>>, <<kUuid, Chosen("uuid")>>, <<kPattern, Chosen("pattern")>>,
                       <<kValues, Chosen("values")>>, <<s1, Chosen("extra")>>, <<kTags, Chosen("tags")>>,
                       <<kTests, Chosen("tests")>> >>))
List == Arr(SelectSeq(<<PatDoc, Chosen("second")>>, LAMBDA d : d.t # "gone"))
Doc == LET top == Chosen("top") IN
       CASE top = "plain" -> Obj(<<<<kPatterns, List>>>>)
         [] top = "extra" -> Obj(<<<<kPatterns, List>>, <<s1, Other>>>>)
         [] top = "nopatterns" -> Obj(<<>>)
         [] top = "notarray" -> Obj(<<<<kPatterns, PatDoc>>>>)
         [] top = "array" -> List
         [] top = "null" -> Null
         [] top = "scalar" -> Other
         [] top = "string" -> Str(s1)
         [] top = "empty" -> Obj(<<<<kPatterns, Arr(<<>>)>>>>)
         [] top = "nulllist" -> Obj(<<<<kPatterns, Null>>>>)

(* acceptance is decided field by field *)
Decomposes ==
    (Chosen("top") = "plain" /\ Chosen("second").t = "gone") =>
        (FileDocOk(Doc) <=> PatternDocOk(PatDoc))
(* a document is rejected for a reason, and for a reason only *)
Reasoned == FileDocOk(Doc) <=> (FileFaults(Doc) = {})
Why(f) == [wrong |-> f[1] = "wrong", tells |-> Tells(f), logged |-> Logged(f), logs |-> Logs(f)]
Emit == DoEmit => PrintT(ToJson([k |-> "doc", doc |-> Doc, ok |-> FileDocOk(Doc),
                                 why |-> {Why(f) : f \in FileFaults(Doc)},
                                 says |-> IF FileDocOk(Doc) THEN FileOf(Doc) ELSE <<>>]))
=============================================================================
