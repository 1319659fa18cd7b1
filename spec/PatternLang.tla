------------------------------ MODULE PatternLang -----------------------------
(* The language of the pattern text (src/grammar/parser/pattern.rustpeg): a   *)
(* parsing expression grammar, rule by rule.  Besides the tokens it computes  *)
(* where a malformed text stops making sense: the furthest position at which  *)
(* something that could have continued the pattern was looked for in vain.    *)
(*                                                                            *)
(* A rule applied at position i of the text s gives                           *)
(*   [ok, pos, v, far]  matched?, position after it, its value, and the       *)
(*   furthest failure met on the way: where it was and what was looked for    *)
(*   there                                                                    *)
EXTENDS ParserSem, SequencesExt

Miss(i, wanted) == [at |-> i, exp |-> {wanted}]
None0 == [at |-> 1, exp |-> {}]                 \* nothing was looked for in vain
Further(f, g) == IF f.at > g.at THEN f ELSE IF g.at > f.at THEN g ELSE [f EXCEPT !.exp = @ \cup g.exp]

Fail(far)      == [ok |-> FALSE, pos |-> 0, v |-> <<>>, far |-> far]
Ok(pos, v, far) == [ok |-> TRUE, pos |-> pos, v |-> v, far |-> far]
Seen(r, far) == [r EXCEPT !.far = Further(@, far)]

(* r, then  the rule Next  applied where r ended *)
Then(r, Next(_, _)) == IF ~r.ok THEN r ELSE Seen(Next(r.pos, r.v), r.far)
(* optional r at i:  <<>> or <<value>> *)
Opt(r, i) == IF r.ok THEN [r EXCEPT !.v = <<@>>] ELSE Ok(i, <<>>, r.far)
(* r, or else the other one *)
Or(r, other) == IF r.ok THEN r ELSE Seen(other, r.far)

Word(s, i, w) == IF PrefixAt(s, i, w) THEN Ok(i + Len(w), w, None0) ELSE Fail(Miss(i, w))

Quote == 34   Lpar == 40   Rpar == 41   CommaC == 44   Space == 32   Colon == 58
Equals == 61  Minus == 45  Newline == 10
wOPEN   == <<37, 123>>                          \* %{
wCLOSE  == <<125>>                              \* }
wSET    == <<83, 69, 84>>
wINT    == <<73, 78, 84>>
wGREEDY == <<71, 82, 69, 69, 68, 89>>
wMIN    == <<109, 105, 110, 95, 108, 101, 110>> \* min_len
wMAX    == <<109, 97, 120, 95, 108, 101, 110>>  \* max_len
wESC    == <<92, 37, 92, 123>>                  \* \%\{

Letters == (97..122) \cup (65..90)
NameStart == Letters \cup {95, 46}
NamePart  == NameStart \cup Digits \cup {Minus}

\* what other things than words are called when they are missing
xChar   == <<60,99,104,97,114,97,99,116,101,114,62>>                \* <character>
xStart  == <<91,97,45,122,65,45,90,95,46,93>>                       \* [a-zA-Z_.]
xPart   == <<91,97,45,122,45,65,45,90,48,45,57,95,46,93>>           \* [a-z-A-Z0-9_.]
xMinus  == <<91,45,93>>                                             \* [-]
xDigit  == <<91,48,45,57,93>>                                       \* [0-9]
xFits   == <<110,117,109,98,101,114,32,116,104,97,116,32,102,105,116,115,32,105,110,116,111,32,117,115,105,122,101>>
                                                                    \* number that fits into usize

(* one or more characters, up to the first occurrence of w or the end *)
UntilWord(s, i, w) ==
    LET hit == FirstAt(s, i, w)
        e   == IF hit = 0 THEN Len(s) + 1 ELSE hit
        far == IF hit = 0 THEN [at |-> Len(s) + 1, exp |-> {w, xChar}] ELSE IF e > i THEN Miss(e - 1, w) ELSE None0
    IN  IF e > i THEN Ok(e, Piece(s, i, e), far) ELSE Fail(far)

Literal(s, i) == UntilWord(s, i, wOPEN)

RECURSIVE Unescape(_)
Unescape(s) ==
    LET hit == FirstAt(s, 1, wESC)
    IN  IF hit = 0 THEN s
        ELSE SubSeq(s, 1, hit - 1) \o wOPEN \o Unescape(From(s, hit + Len(wESC)))

String(s, i) ==
    Then(Word(s, i, <<Quote>>), LAMBDA j, v :
        Then(UntilWord(s, j, <<Quote>>), LAMBDA k, str :
            Then(Word(s, k, <<Quote>>), LAMBDA m, v2 : Ok(m, str, None0))))

(* A name: the characters of NamePart, but none that a minus follows; its     *)
(* first character is one of NameStart.                                       *)
RECURSIVE NameEnd(_, _, _)
NameEnd(s, i, far) ==
    IF i > Len(s) \/ s[i] \notin NamePart THEN [pos |-> i, far |-> Further(far, Miss(i, xPart))]
    ELSE IF i + 1 <= Len(s) /\ s[i + 1] = Minus THEN [pos |-> i, far |-> far]
    ELSE NameEnd(s, i + 1, Further(far, Miss(i + 1, xMinus)))
Identifier(s, i) ==
    IF i > Len(s) \/ s[i] \notin NameStart THEN Fail(Miss(i, xStart))
    ELSE LET r == NameEnd(s, i + 1, None0) IN Ok(r.pos, Piece(s, i, r.pos), r.far)

Name(s, i) == Then(Word(s, i, <<Colon>>), LAMBDA j, v : Identifier(s, j))

Comma(s, i) ==
    Then(Word(s, i, <<CommaC>>), LAMBDA j, v :
        LET e == RunEnd(s, j, {Space}) IN Ok(e, <<>>, Miss(e, <<Space>>)))

(* a number of 64 bits; larger than Cap is treated like Cap, no text being    *)
(* that long                                                                  *)
Cap == 1000000000
MaxNumber == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
RECURSIVE Stripped(_)
Stripped(ds) == IF ds # <<>> /\ ds[1] = 48 THEN Stripped(Tail(ds)) ELSE ds
NumberFits(ds) ==
    LET n == Stripped(ds)
    IN  Len(n) < Len(MaxNumber) \/ (Len(n) = Len(MaxNumber) /\ ~Less(MaxNumber, n))
RECURSIVE Decimal(_)
Decimal(ds) == IF ds = <<>> THEN 0 ELSE 10 * Decimal(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)] - 48
NumberValue(ds) == LET n == Stripped(ds) IN IF Len(n) > 9 THEN Cap ELSE Decimal(n)

Number(s, i) ==
    LET e == RunEnd(s, i, Digits)
    IN  IF e = i THEN Fail(Miss(e, xDigit))
        ELSE IF NumberFits(Piece(s, i, e)) THEN Ok(e, NumberValue(Piece(s, i, e)), Miss(e, xDigit))
        ELSE Fail([at |-> e, exp |-> {xDigit, xFits}])

Param(s, i) ==
    LET One(w, key) == Then(Word(s, i, w), LAMBDA j, v :
                          Then(Word(s, j, <<Equals>>), LAMBDA k, v2 :
                              Then(Number(s, k), LAMBDA m, n : Ok(m, <<key, n>>, None0))))
    IN  Or(One(wMIN, "min"), One(wMAX, "max"))

(* zero or more parameters, separated by commas *)
RECURSIVE MoreParams(_, _, _, _)
MoreParams(s, i, got, far) ==
    LET c == IF got = <<>> THEN Ok(i, <<>>, None0) ELSE Comma(s, i)
        r == Then(c, LAMBDA j, v : Param(s, j))
    IN  IF r.ok THEN MoreParams(s, r.pos, Append(got, r.v), Further(far, r.far))
        ELSE Ok(i, got, Further(far, r.far))
Params(s, i) == MoreParams(s, i, <<>>, None0)

(* the last of several values given for the same bound counts *)
Bound(params, key) ==
    LET given == {j \in 1..Len(params) : params[j][1] = key}
    IN  IF given = {} THEN NoBound ELSE params[MaxOf(given)][2]

SetParams(s, i) == Then(Comma(s, i), LAMBDA j, v : Params(s, j))
IntParams(s, i) ==
    Then(Word(s, i, <<Lpar>>), LAMBDA j, v :
        Then(Params(s, j), LAMBDA k, ps :
            Then(Word(s, k, <<Rpar>>), LAMBDA m, v2 : Ok(m, ps, None0))))

GivenParams(opt) == IF opt = <<>> THEN <<>> ELSE opt[1]

SetParser(s, i) ==
    Then(Word(s, i, wSET), LAMBDA i1, v1 :
     Then(Word(s, i1, <<Lpar>>), LAMBDA i2, v2 :
      Then(String(s, i2), LAMBDA i3, chars :
       Then(Opt(SetParams(s, i3), i3), LAMBDA i4, ps :
        Then(Word(s, i4, <<Rpar>>), LAMBDA i5, v5 :
         Then(Opt(Name(s, i5), i5), LAMBDA i6, name :
            Ok(i6, SetP(name, SetOfSeq(chars), Bound(GivenParams(ps), "min"), Bound(GivenParams(ps), "max")), None0)))))))

IntParser(s, i) ==
    Then(Word(s, i, wINT), LAMBDA i1, v1 :
     Then(Opt(IntParams(s, i1), i1), LAMBDA i2, ps :
      Then(Opt(Name(s, i2), i2), LAMBDA i3, name :
         Ok(i3, IntP(name, Bound(GivenParams(ps), "min"), Bound(GivenParams(ps), "max")), None0))))

(* a GREEDY takes the literal after it along, as its end *)
GreedyPiece(s, i) ==
    Then(Word(s, i, wOPEN), LAMBDA i1, v1 :
     Then(Word(s, i1, wGREEDY), LAMBDA i2, v2 :
      Then(Opt(Name(s, i2), i2), LAMBDA i3, name :
       Then(Word(s, i3, wCLOSE), LAMBDA i4, v4 :
        Then(Opt(Literal(s, i4), i4), LAMBDA i5, lit :
           IF lit = <<>> THEN Ok(i5, <<GreedyP(name, <<>>)>>, None0)
           ELSE LET e == Unescape(lit[1]) IN Ok(i5, <<GreedyP(name, <<e>>), Lit(e)>>, None0))))))

LiteralPiece(s, i) == Then(Literal(s, i), LAMBDA j, v : Ok(j, <<Lit(Unescape(v))>>, None0))

ParserPiece(s, i) ==
    Then(Word(s, i, wOPEN), LAMBDA i1, v1 :
     Then(Or(SetParser(s, i1), IntParser(s, i1)), LAMBDA i2, p :
      Then(Word(s, i2, wCLOSE), LAMBDA i3, v3 : Ok(i3, <<p>>, None0))))

PiecePEG(s, i) == Or(GreedyPiece(s, i), Or(LiteralPiece(s, i), ParserPiece(s, i)))

(* pieces, one after the other, for as long as there is one; between two      *)
(* literals there is a parser                                                 *)
NextPiece(s, st) ==
    LET r == PiecePEG(s, st.pos)
    IN  IF r.ok THEN [pos |-> r.pos, toks |-> st.toks \o r.v, far |-> Further(st.far, r.far), done |-> FALSE]
        ELSE [st EXCEPT !.far = Further(@, r.far), !.done = TRUE]
MostPieces(s) == 2 * Cardinality({j \in 1..Len(s) : s[j] = wOPEN[1]}) + 2
Pieces(s) == FoldLeft(LAMBDA st, k : IF st.done THEN st ELSE NextPiece(s, st),
                      [pos |-> 1, toks |-> <<>>, far |-> None0, done |-> FALSE],
                      [k \in 1..MostPieces(s) |-> k])

(* Compile(s): [ok, toks] or [ok, far, exp] *)
Compile(s) ==
    LET r == Pieces(s)
    IN  [ok |-> r.toks # <<>> /\ r.pos = Len(s) + 1, toks |-> r.toks, far |-> r.far.at, exp |-> r.far.exp]

(* how a position is reported: byte offset, line and column in bytes *)
ErrOffset(s, far) == Bytes(s, far - 1)
ErrLine(s, far)   == 1 + Cardinality({j \in 1..(far - 1) : s[j] = Newline})
ErrColumn(s, far) ==
    LET nl    == {j \in 1..(far - 1) : s[j] = Newline}
        start == IF nl = {} THEN 0 ELSE MaxOf(nl)
    IN  Bytes(s, far - 1) - Bytes(s, start) + 1

(* how the rendered error begins: "error at <line>:<column>: expected "       *)
RECURSIVE DecText(_)
DecText(n) == IF n < 10 THEN <<48 + n>> ELSE DecText(n \div 10) \o <<48 + (n % 10)>>
ErrShown(s, far) ==
    <<101,114,114,111,114,32,97,116,32>> \o DecText(ErrLine(s, far)) \o <<58>> \o DecText(ErrColumn(s, far))
    \o <<58,32,101,120,112,101,99,116,101,100,32>>

(* and goes on: "EOF", "`this`" or "one of `this`, `that`", in any order, a   *)
(* quotation mark escaped                                                     *)
Tick == 96
LabelText(w) == <<Tick>> \o FlattenSeq([j \in 1..Len(w) |-> IF w[j] \in {34, 39, 92} THEN <<92, w[j]>> ELSE <<w[j]>>]) \o <<Tick>>
RECURSIVE LabelsLen(_)
LabelsLen(W) == IF W = {} THEN 0 ELSE LET w == CHOOSE x \in W : TRUE IN Len(LabelText(w)) + LabelsLen(W \ {w})
oneOf == <<111,110,101,32,111,102,32>>
Named(shown, s, far, exp) ==
    LET head == ErrShown(s, far)
        rest == From(shown, Len(head) + 1)
        n    == Cardinality(exp)
    IN  /\ PrefixAt(shown, 1, head)
        /\ CASE n = 0 -> rest = <<69,79,70>>
             [] n = 1 -> rest = LabelText(CHOOSE w \in exp : TRUE)
             [] OTHER -> /\ PrefixAt(rest, 1, oneOf)
                         /\ Len(rest) = Len(oneOf) + LabelsLen(exp) + 2 * (n - 1)
                         /\ \A w \in exp : FirstAt(rest, 1, LabelText(w)) # 0
=============================================================================
