------------------------------- MODULE Documents ------------------------------
(* Pattern documents (src/matcher/pattern/deser.rs, file, testmessage): which *)
(* ones are accepted and what they say.  JSON and YAML documents are trees:   *)
(*   [t |-> "s", v |-> text]        a string                                  *)
(*   [t |-> "n", v |-> <<>>]        a number or a truth value                 *)
(*   [t |-> "z", v |-> <<>>]        null, which stands for an empty container *)
(*   [t |-> "a", v |-> sequence]    an array                                  *)
(*   [t |-> "o", v |-> sequence of <<key, tree>>]   an object, distinct keys  *)
EXTENDS PatternLang

Str(s)  == [t |-> "s", v |-> s]
Other   == [t |-> "n", v |-> <<>>]
Null    == [t |-> "z", v |-> <<>>]
Arr(s)  == [t |-> "a", v |-> s]
Obj(kv) == [t |-> "o", v |-> kv]

kName == <<110,97,109,101>>
kUuid == <<117,117,105,100>>
kPattern == <<112,97,116,116,101,114,110>>
kValues == <<118,97,108,117,101,115>>
kTags == <<116,97,103,115>>
kTests == <<116,101,115,116,95,109,101,115,115,97,103,101,115>>
kMessage == <<109,101,115,115,97,103,101>>
kPatterns == <<112,97,116,116,101,114,110,115>>

IsStr(d) == d.t = "s"
IsObj(d) == d.t = "o"
Keys(d)  == {d.v[j][1] : j \in 1..Len(d.v)}
Has(d, key) == key \in Keys(d)
Get(d, key) == (CHOOSE j \in 1..Len(d.v) : d.v[j][1] = key)
At(d, key)  == d.v[Get(d, key)][2]

(* a UUID: 32 hexadecimal digits, plain or hyphenated 8-4-4-4-12, the latter  *)
(* also with the prefix urn:uuid:                                             *)
Hex == (48..57) \cup (97..102) \cup (65..70)
Urn == <<117,114,110,58,117,117,105,100,58>>
AllHex(s) == \A j \in 1..Len(s) : s[j] \in Hex
Hyphens == {9, 14, 19, 24}
Hyphenated(s) == /\ Len(s) = 36
                 /\ \A j \in 1..36 : IF j \in Hyphens THEN s[j] = 45 ELSE s[j] \in Hex
ValidUuid(s) ==
    \/ Len(s) = 32 /\ AllHex(s)
    \/ Hyphenated(s)
    \/ Len(s) = 45 /\ PrefixAt(s, 1, Urn) /\ Hyphenated(From(s, 10))
LowerHex(c) == IF c \in 65..70 THEN c + 32 ELSE c
(* the 32 digits, in lower case *)
UuidDigits(s) ==
    LET body == IF Len(s) = 45 THEN From(s, 10) ELSE s
        hexs == SelectSeq(body, LAMBDA c : c # 45)
    IN  [j \in 1..Len(hexs) |-> LowerHex(hexs[j])]

IsList(d) == d.t \in {"a", "z"}
IsMap(d)  == d.t \in {"o", "z"}
StrMap(d) == IsMap(d) /\ \A j \in 1..Len(d.v) : IsStr(d.v[j][2])
StrList(d) == IsList(d) /\ \A j \in 1..Len(d.v) : IsStr(d.v[j])

TestDocOk(d) ==
    /\ IsObj(d)
    /\ Keys(d) \subseteq {kMessage, kValues, kTags}
    /\ Has(d, kMessage) /\ IsStr(At(d, kMessage))
    /\ Has(d, kValues) => StrMap(At(d, kValues))
    /\ Has(d, kTags) => StrList(At(d, kTags))

PatternDocOk(d) ==
    /\ IsObj(d)
    /\ Keys(d) \subseteq {kName, kUuid, kPattern, kValues, kTags, kTests}
    /\ Has(d, kUuid) /\ IsStr(At(d, kUuid)) /\ ValidUuid(At(d, kUuid).v)
    /\ Has(d, kPattern) /\ IsStr(At(d, kPattern)) /\ Compile(At(d, kPattern).v).ok
    /\ Has(d, kName) => IsStr(At(d, kName))
    /\ Has(d, kValues) => StrMap(At(d, kValues))
    /\ Has(d, kTags) => StrList(At(d, kTags))
    /\ Has(d, kTests) => (IsList(At(d, kTests)) /\ \A j \in 1..Len(At(d, kTests).v) : TestDocOk(At(d, kTests).v[j]))

FileDocOk(d) ==
    /\ IsObj(d)
    /\ Keys(d) = {kPatterns}
    /\ IsList(At(d, kPatterns))
    /\ \A j \in 1..Len(At(d, kPatterns).v) : PatternDocOk(At(d, kPatterns).v[j])

(* what an accepted document says *)
MapOf(d)  == {<<d.v[j][1], d.v[j][2].v>> : j \in 1..Len(d.v)}
ListOf(d) == [j \in 1..Len(d.v) |-> d.v[j].v]
TestOf(d) == [m      |-> At(d, kMessage).v,
              values |-> IF Has(d, kValues) THEN MapOf(At(d, kValues)) ELSE {},
              tags   |-> IF Has(d, kTags) THEN <<ListOf(At(d, kTags))>> ELSE <<>>]
PatternOf(d) ==
    [uuid   |-> UuidDigits(At(d, kUuid).v),
     name   |-> IF Has(d, kName) THEN <<At(d, kName).v>> ELSE <<>>,
     toks   |-> Compile(At(d, kPattern).v).toks,
     values |-> IF Has(d, kValues) THEN <<MapOf(At(d, kValues))>> ELSE <<>>,
     tags   |-> IF Has(d, kTags) THEN <<ListOf(At(d, kTags))>> ELSE <<>>,
     tests  |-> IF Has(d, kTests) THEN [j \in 1..Len(At(d, kTests).v) |-> TestOf(At(d, kTests).v[j])] ELSE <<>>]
FileOf(d) == [j \in 1..Len(At(d, kPatterns).v) |-> PatternOf(At(d, kPatterns).v[j])]

-----------------------------------------------------------------------------
(* Why a document is rejected.  A fault is                                    *)
(*   <<"unknown", key>>          a field that means nothing                   *)
(*   <<"missing", key>>          a required field that is not there           *)
(*   <<"nopattern", d>>          the pattern d has no pattern text            *)
(*   <<"badpattern", d>>         the pattern text of d is malformed           *)
(*   <<"wrong">>                 anything else: a value of the wrong kind     *)
(* The first one met is reported; which one that is is left open.             *)
PatternKeys == {kName, kUuid, kPattern, kValues, kTags, kTests}
TestKeys    == {kMessage, kValues, kTags}
Unknown(d, known) == {<<"unknown", key>> : key \in Keys(d) \ known}
WrongIf(b) == IF b THEN {<<"wrong">>} ELSE {}
NotObj(d, missing) == {<<"wrong">>} \cup (IF d.t = "z" THEN missing ELSE {})
Nothing == Obj(<<>>)

TestFaults(d) ==
    IF ~IsObj(d) THEN NotObj(d, {<<"missing", kMessage>>})
    ELSE Unknown(d, TestKeys)
         \cup (IF Has(d, kMessage) THEN {} ELSE {<<"missing", kMessage>>})
         \cup WrongIf(\/ Has(d, kMessage) /\ ~IsStr(At(d, kMessage))
                      \/ Has(d, kValues) /\ ~StrMap(At(d, kValues))
                      \/ Has(d, kTags) /\ ~StrList(At(d, kTags)))

(* a malformed pattern text comes with the position of its error *)
PatternFaults(d) ==
    IF ~IsObj(d) THEN NotObj(d, {<<"nopattern", Nothing>>})
    ELSE Unknown(d, PatternKeys)
         \cup (IF Has(d, kUuid) THEN {} ELSE {<<"missing", kUuid>>})
         \cup (IF ~Has(d, kPattern) THEN {<<"nopattern", d>>}
               ELSE IF ~IsStr(At(d, kPattern)) THEN {<<"wrong">>}
               ELSE IF Compile(At(d, kPattern).v).ok THEN {} ELSE {<<"badpattern", d>>})
         \cup WrongIf(\/ Has(d, kUuid) /\ ~(IsStr(At(d, kUuid)) /\ ValidUuid(At(d, kUuid).v))
                      \/ Has(d, kName) /\ ~IsStr(At(d, kName))
                      \/ Has(d, kValues) /\ ~StrMap(At(d, kValues))
                      \/ Has(d, kTags) /\ ~StrList(At(d, kTags))
                      \/ Has(d, kTests) /\ ~IsList(At(d, kTests)))
         \cup (IF Has(d, kTests) /\ IsList(At(d, kTests))
               THEN UNION {TestFaults(At(d, kTests).v[j]) : j \in 1..Len(At(d, kTests).v)} ELSE {})

FileFaults(d) ==
    IF ~IsObj(d) THEN NotObj(d, {<<"missing", kPatterns>>})
    ELSE Unknown(d, {kPatterns})
         \cup (IF ~Has(d, kPatterns) THEN {<<"missing", kPatterns>>}
               ELSE IF ~IsList(At(d, kPatterns)) THEN {<<"wrong">>}
               ELSE UNION {PatternFaults(At(d, kPatterns).v[j]) : j \in 1..Len(At(d, kPatterns).v)})

(* How a fault is told: the error has to contain one of the texts Tells(f),   *)
(* the error log one line with all the texts Logs(f).                         *)
lUnexpected == <<85,110,101,120,112,101,99,116,101,100,32,102,105,101,108,100>>   \* Unexpected field
lMissing    == <<105,115,115,105,110,103,32,102,105,101,108,100>>                 \* issing field
lInvalid    == <<73,110,118,97,108,105,100,32,102,105,101,108,100>>               \* Invalid field
Ticked(key, c) == <<c>> \o key \o <<c>>
MissingTexts(key) == {lMissing \o <<32>> \o Ticked(key, c) : c \in {34, 39, 96}}
Tells(f) ==
    CASE f[1] = "unknown"    -> {lUnexpected \o <<58, 32>> \o f[2]}
      [] f[1] = "missing"    -> MissingTexts(f[2])
      [] f[1] = "nopattern"  -> MissingTexts(kPattern)
      [] f[1] = "badpattern" -> {lInvalid \o <<32>> \o Ticked(kPattern, 39)}
      [] OTHER -> {}
(* texts are shown in quotes, with the usual escapes; for the characters not  *)
(* in Plain nothing is said about how                                         *)
Plain == (32..126) \cup {9, 10, 13} \cup (192..383) \cup {8364, 128512}
IsPlain(s) == \A j \in 1..Len(s) : s[j] \in Plain
RECURSIVE Escaped(_)
Escaped(s) ==
    LET special == {j \in 1..Len(s) : s[j] \in {9, 10, 13, 34, 92}}
    IN  IF special = {} THEN s
        ELSE LET j == MinOf(special)
                 c == s[j]
             IN  SubSeq(s, 1, j - 1)
                 \o (CASE c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] OTHER -> <<92, c>>)
                 \o Escaped(From(s, j + 1))
InQuotes(s) == <<34>> \o Escaped(s) \o <<34>>
eName    == kName \o <<61>>
eUuid    == kUuid \o <<61>>
ePattern == kPattern \o <<61>>
eNone    == <<78,111,110,101>>
eSome    == <<83,111,109,101,40>>                                                 \* Some(
eUuidOf  == <<85,117,105,100,40>>                                                 \* Uuid(
Hyphened(u) == SubSeq(u, 1, 8) \o <<45>> \o SubSeq(u, 9, 12) \o <<45>> \o SubSeq(u, 13, 16) \o <<45>>
               \o SubSeq(u, 17, 20) \o <<45>> \o SubSeq(u, 21, 32)
(* which pattern it is *)
Identifies(d) ==
    (IF ~Has(d, kName) THEN {eName \o eNone}
     ELSE IF IsStr(At(d, kName)) /\ IsPlain(At(d, kName).v) THEN {eName \o eSome \o InQuotes(At(d, kName).v) \o <<41>>}
     ELSE {})
    \cup
    (IF ~Has(d, kUuid) THEN {eUuid \o eNone}
     ELSE IF IsStr(At(d, kUuid)) /\ ValidUuid(At(d, kUuid).v)
          THEN {eUuid \o eSome \o eUuidOf \o InQuotes(Hyphened(UuidDigits(At(d, kUuid).v))) \o <<41, 41>>}
     ELSE {})
Logs(f) ==
    CASE f[1] = "nopattern"  -> {lMissing \o <<32>> \o Ticked(kPattern, 39)} \cup Identifies(f[2])
      [] f[1] = "badpattern" ->
            LET src == At(f[2], kPattern).v IN
            {lInvalid \o <<32>> \o Ticked(kPattern, 39), ErrShown(src, Compile(src).far)}
            \cup Identifies(f[2])
            \cup (IF IsPlain(src) THEN {ePattern \o InQuotes(src)} ELSE {})
      [] OTHER -> {}
(* the faults that are also logged *)
Logged(f) == f[1] \in {"nopattern", "badpattern"}
Within(s, text) == FirstAt(text, 1, s) # 0
ToldBy(f, err, log) ==
    /\ IF f[1] = "wrong" THEN \A s \in {lUnexpected, lMissing, lInvalid} : ~Within(s, err)
       ELSE \E s \in Tells(f) : Within(s, err)
    /\ Logged(f) => \E j \in 1..Len(log) : \A s \in Logs(f) : Within(s, log[j])
(* err and log are what came of a document with these faults *)
SaysWhy(faults, err, log) ==
    /\ \E f \in faults : ToldBy(f, err, log)
    /\ \A j \in 1..Len(log) : \E f \in faults : Logged(f) /\ \A s \in Logs(f) : Within(s, log[j])

-----------------------------------------------------------------------------
(* Files (src/matcher/pattern_loader.rs).  The format follows from the        *)
(* extension alone: what follows the last dot of the last component of the    *)
(* path, provided that something precedes that dot.                           *)
Slash == 47  Dot == 46
RECURSIVE TrimSlashes(_)
TrimSlashes(p) == IF p # <<>> /\ p[Len(p)] = Slash THEN TrimSlashes(SubSeq(p, 1, Len(p) - 1)) ELSE p
FileName(path) ==
    LET p  == TrimSlashes(path)
        sl == {j \in 1..Len(p) : p[j] = Slash}
    IN  IF sl = {} THEN p ELSE From(p, MaxOf(sl) + 1)
Extension(path) ==
    LET f    == FileName(path)
        dots == {j \in 2..Len(f) : f[j] = Dot}
    IN  IF dots = {} \/ f = <<Dot, Dot>> THEN <<>> ELSE From(f, MaxOf(dots) + 1)

json == <<106,115,111,110>>
yamls == {<<121,97,109,108>>, <<121,109,108>>, <<89,65,77,76>>, <<89,77,76>>}
Format(path) == IF Extension(path) = json THEN "json"
                ELSE IF Extension(path) \in yamls THEN "yaml" ELSE "unsupported"

(* state: "missing", "unreadable" (a directory, an I/O error, not UTF-8) or   *)
(* "text"; valid: the text is an acceptable document of the file's format     *)
LoadOutcome(path, state, valid) ==
    IF Format(path) = "unsupported" THEN "unsupported"
    ELSE IF state # "text" THEN "io"
    ELSE IF ~valid THEN Format(path)
    ELSE "ok"
(* What may be found under a name: nothing that can be read to its end as     *)
(* UTF-8, a document of the documented shape, or something else.  "failing"   *)
(* is a good document with a test message that fails, "none" one without      *)
(* patterns; the big ones are longer than any buffer; a pipe gives what was   *)
(* written to it, piece by piece.                                             *)
Unreadable == {"missing", "dir", "eio", "dangling", "loop", "notutf8", "tail", "bigtail", "headbyte", "pipebad",
               "megatail", "hugetail"}
Acceptable == {"good", "failing", "none", "big", "crlf", "blank", "pipe", "link", "many",
               "escaped", "spread", "flow", "mega", "huge"}
Malformed  == {"empty", "malformed", "cut", "bigcut", "badfield", "badpattern", "foreign",
               "trailing", "twice", "leading", "nul", "pipecut", "list", "manybad",
               "bom", "comma", "comment", "quotes", "control", "escape", "half", "bare", "open", "apart", "joined", "rows", "closed", "semi",
               "megacut", "hugecut"}
(* what the system says of a file that cannot be opened or read (Linux)       *)
SystemSays(state) == CASE state \in {"missing", "dangling"} -> 2               \* no such file
                       [] state = "eio"  -> 5                                  \* input/output error
                       [] state = "dir"  -> 21                                 \* is a directory
                       [] state = "loop" -> 40                                 \* too many links
                       [] OTHER -> 0
OutcomeOf(path, state) ==
    LoadOutcome(path, IF state \in Unreadable THEN "unreadable" ELSE "text", state \in Acceptable)
=============================================================================
