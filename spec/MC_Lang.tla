-------------------------------- MODULE MC_Lang -------------------------------
(* All texts that can be put together from at most MaxPieces fragments.       *)
(* Checks that the language is a language (what it compiles is canonical,     *)
(* rendering and compiling again gives the same, errors lie in the text) and  *)
(* emits for every text the tokens or the error position it has to give.      *)
EXTENDS PatternLang, Matching, TLC, Json

CONSTANTS MaxPieces, Fragments, DoEmit

a == 97
Frag(k) == CASE k = "a" -> <<a>>        [] k = "esc" -> wESC        [] k = "nl" -> <<10>>
             [] k = "e" -> <<233>>       [] k = "%" -> <<37>>        [] k = "{" -> <<123>>
             [] k = "open" -> wOPEN      [] k = "close" -> wCLOSE    [] k = "bs" -> <<92>>
             [] k = "INT" -> wINT        [] k = "SET" -> wSET        [] k = "GREEDY" -> wGREEDY
             [] k = "(" -> <<Lpar>>      [] k = ")" -> <<Rpar>>      [] k = "quote" -> <<Quote>>
             [] k = "," -> <<CommaC>>    [] k = "sp" -> <<Space>>    [] k = "min" -> wMIN \o <<Equals>>
             [] k = "max" -> wMAX \o <<Equals>> [] k = "1" -> <<49>> [] k = "30" -> <<51, 48>>
             [] k = ":" -> <<Colon>>     [] k = "n" -> <<110>>       [] k = "-" -> <<Minus>>
             [] k = "%{INT" -> wOPEN \o wINT
             [] k = "%{SET(q" -> wOPEN \o wSET \o <<Lpar, Quote>>
             [] k = "%{GREEDY" -> wOPEN \o wGREEDY
             [] k = "q)" -> <<Quote, Rpar>>
             [] k = "%{INT(" -> wOPEN \o wINT \o <<Lpar>>
             [] k = "big" -> MaxNumber
             [] k = "over" -> <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,54>>

VARIABLES src, n
Init == src = <<>> /\ n = 0
Next == /\ n < MaxPieces
        /\ \E k \in Fragments : src' = src \o Frag(k)
        /\ n' = n + 1

(* rendering *)
RECURSIVE Escape(_)
Escape(s) == LET hit == FirstAt(s, 1, wOPEN)
             IN  IF hit = 0 THEN s
                 ELSE SubSeq(s, 1, hit - 1) \o wESC \o Escape(From(s, hit + 2))
RECURSIVE DecimalText(_)
DecimalText(m) == IF m < 10 THEN <<48 + m>> ELSE DecimalText(m \div 10) \o <<48 + (m % 10)>>
RECURSIVE SetText(_)
SetText(cs) == IF cs = {} THEN <<>> ELSE LET c == MinOf(cs) IN <<c>> \o SetText(cs \ {c})
BoundText(p) ==
    (IF p.min = NoBound THEN <<>> ELSE <<CommaC>> \o wMIN \o <<Equals>> \o DecimalText(p.min))
    \o (IF p.max = NoBound THEN <<>> ELSE <<CommaC>> \o wMAX \o <<Equals>> \o DecimalText(p.max))
NameText(p) == IF p.name = <<>> THEN <<>> ELSE <<Colon>> \o p.name[1]
TokText(toks, j) ==
    LET p == toks[j] IN
    IF IsLit(p) THEN Escape(p.s)
    ELSE IF p.t = "set" THEN wOPEN \o wSET \o <<Lpar, Quote>> \o SetText(p.cs) \o <<Quote>> \o BoundText(p)
                             \o <<Rpar>> \o NameText(p) \o wCLOSE
    ELSE IF p.t = "int" THEN wOPEN \o wINT
                             \o (IF BoundText(p) = <<>> THEN <<>> ELSE <<Lpar>> \o Tail(BoundText(p)) \o <<Rpar>>)
                             \o NameText(p) \o wCLOSE
    ELSE wOPEN \o wGREEDY \o NameText(p) \o wCLOSE
RECURSIVE Render(_, _)
Render(toks, j) == IF j > Len(toks) THEN <<>> ELSE TokText(toks, j) \o Render(toks, j + 1)

Good ==
    LET r == Compile(src)
    IN  /\ r.ok => /\ Canonical(r.toks)
                   /\ Compile(Render(r.toks, 1)).ok
                   /\ Compile(Render(r.toks, 1)).toks = r.toks
                   (* a greedy parser ends at the literal right after it *)
                   /\ \A j \in 1..Len(r.toks) : r.toks[j].t = "greedy" =>
                        r.toks[j].end = (IF j < Len(r.toks) /\ IsLit(r.toks[j + 1]) THEN <<r.toks[j + 1].s>> ELSE <<>>)
        /\ r.far \in 1..(Len(src) + 1)
        /\ ErrOffset(src, r.far) <= Bytes(src, Len(src))
        (* an error further than the start cannot be seen before it is there: *)
        (* the text cut at the error position fails there or earlier, or is a *)
        (* well-formed pattern itself                                         *)
        /\ ~r.ok => LET cut == Compile(SubSeq(src, 1, r.far - 1))
                    IN  cut.ok \/ cut.far <= r.far

(* What an error says was expected, put in where it was missing, takes the    *)
(* text further.  (xMinus and a quotation mark may be what must not come      *)
(* there; no insertion makes a number shorter, for which xFits stands.)       *)
Example(w) == CASE w = xChar -> <<a>> [] w = xStart -> <<a>> [] w = xPart -> <<a>> [] w = xDigit -> <<48>> [] OTHER -> w
Honest ==
    LET r == Compile(src)
    IN  ~r.ok => /\ r.exp # {} /\ r.exp # {xMinus}
                 /\ \A w \in r.exp \ {xMinus, xFits, <<Quote>>} :
                       LET more == Compile(SubSeq(src, 1, r.far - 1) \o Example(w))
                       IN  more.ok \/ more.far > r.far

Emit == DoEmit =>
    LET r == Compile(src)
    IN  PrintT(ToJson(IF r.ok THEN [k |-> "ok", src |-> src, toks |-> r.toks]
                      ELSE [k |-> "err", src |-> src, off |-> ErrOffset(src, r.far),
                            line |-> ErrLine(src, r.far), col |-> ErrColumn(src, r.far), exp |-> r.exp]))
=============================================================================
