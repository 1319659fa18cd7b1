-------------------------------- MODULE Trace --------------------------------
(* Checks a trace recorded from the real code (one JSON record per line)      *)
(* against the specification: every line is an action of the specification,   *)
(* and what was observed has to be what the property Prop demands of it.  A   *)
(* line that does not conform is a step that does not exist: the trace is     *)
(* accepted exactly if all of its lines can be walked through.                *)
EXTENDS ActionDB, Documents, Verdict, Utils, Parts, TLC, Json, IOUtils

VARIABLES l,      \* the next line
          lits,   \* the literals inserted into a literal index
          vec,    \* the elements of an ordered vector
          objs,   \* patterns being taken apart, in the order of their creation
          bld     \* the tokens in the pattern builders
tvars == <<hist, l, lits, vec, objs, bld>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

(* parsers and tokens as the specification writes them *)
NormPar(p) == [t |-> p.t, name |-> p.name, cs |-> IF p.t = "int" THEN Digits ELSE SetOfSeq(p.cs),
               min |-> p.min, max |-> p.max, end |-> p.end]
NormTok(k) == IF k.t = "lit" THEN Lit(k.s) ELSE NormPar(k)
NormToks(ks) == TLCEval([j \in 1..Len(ks) |-> NormTok(ks[j])])

AllToks == TLCEval([j \in 1..Len(Trace) |-> IF Trace[j].e = "add" THEN NormToks(Trace[j].toks) ELSE <<>>])
TraceToks(p) == AllToks[p]
TraceHandles == 1..40

-----------------------------------------------------------------------------
(* Answers: k = 0 no match, 1 a match, 2 no answer at all (a panic)           *)
Sides == 1..2                                  \* the trie, the suffix table
KV(vals) == SetOfSeq(vals)
PosOf(h, id) == LET at == {j \in 1..Len(hist[h]) : hist[h][j] = id} IN IF at = {} THEN 0 ELSE MaxOf(at)
(* as in ActionDB: <<>> or <<position in the history, values>>                *)
AsAnswer(h, A) == IF A.k # 1 THEN NoMatch ELSE <<PosOf(h, A.id), KV(A.vals)>>
SameAnswer(A, B) == A.k = B.k /\ (A.k = 1 => (A.id = B.id /\ KV(A.vals) = KV(B.vals)))
SameMeta(m, n) == /\ m.uuid = n.uuid /\ m.name = n.name /\ m.tags = n.tags
                  /\ Len(m.values) = Len(n.values)
                  /\ Len(m.values) = 1 => KV(m.values[1]) = KV(n.values[1])
AllCanonical(h) == \A j \in 1..Len(hist[h]) : Canonical(Toks(hist[h][j]))

AskOk(h, t, A) ==
    LET r == AsAnswer(h, A)
    IN  CASE Prop = "C01" -> SoundAt(h, t, r)
          [] Prop = "C02" -> CompleteAt(h, t, r)
          [] Prop = "C03" -> AllCanonical(h) => WinnerAt(h, t, r)
          [] Prop = "C05" -> A.k # 2
          [] Prop = "C06" -> (r # NoMatch /\ r[1] # 0 /\ Alone(Toks(hist[h][r[1]]), t)) => ValuesAt(h, t, r)
          [] Prop = "C18" -> r # NoMatch => (r[1] # 0 /\ SameMeta(A.m, Trace[A.id].meta) /\ Alone(Toks(A.id), t))
          [] Prop = "C19" -> WinnerAt(h, t, r) /\ ValuesAt(h, t, r)
          [] OTHER -> TRUE

BothOk(ev) ==
    CASE Prop = "C04" -> AllCanonical(ev.h) => SameAnswer(ev.a[1], ev.a[2])
      [] Prop \in {"C16", "C17"} -> /\ ev.f # <<>> => \A s \in Sides : SameAnswer(ev.a[s], ev.f[s])
                                    /\ ev.c # <<>> => \A s \in Sides : SameAnswer(ev.a[s], ev.c[s])
      [] OTHER -> TRUE

(* a pattern on its own *)
SoloOk(ev) ==
    LET toks == NormToks(ev.toks)
    IN  \A s \in Sides :
          /\ ev.a[s].k = (IF Alone(toks, ev.t) THEN 1 ELSE 0)
          /\ ev.a[s].k = 1 => KV(ev.a[s].vals) = Values(toks, ev.t)

(* a parser on its own *)
PrunOk(p, t, r) ==
    LET e == ParseEnd(p, t, 1)
    IN  IF e = 0 THEN r.k = 0 ELSE r.k = 1 /\ r.v = Piece(t, 1, e) /\ r.nm = p.name

HashOk(ev) == ev.copy = 1 /\ ev.eq = (IF SameParser(NormPar(ev.p), NormPar(ev.q)) THEN 1 ELSE 0)

-----------------------------------------------------------------------------
(* Pattern texts *)
ProbeOk(p, pr) ==
    LET e == ParseEnd(p, pr[1], 1)
    IN  IF e = 0 THEN pr[2] = 0 ELSE pr[2] = 1 /\ pr[3] = Piece(pr[1], 1, e)
SeenOk(tok, seen) ==
    IF IsLit(tok) THEN seen.t = "lit" /\ seen.s = tok.s
    ELSE /\ seen.t = "par" /\ seen.name = tok.name /\ seen.same # 0
         /\ \A j \in 1..Len(seen.probes) : ProbeOk(tok, seen.probes[j])
CompileOk(ev) ==
    \A c \in {Compile(ev.src)} :          \* evaluated once
    LET r == ev.r
    IN  CASE Prop = "C09" -> c.ok => /\ r.k = 1
                                     /\ Len(r.toks) = Len(c.toks)
                                     /\ \A j \in 1..Len(c.toks) : SeenOk(c.toks[j], r.toks[j])
          [] Prop = "C10" -> ~c.ok => /\ r.k = 0
                                      /\ r.off = ErrOffset(ev.src, c.far)
                                      /\ r.line = ErrLine(ev.src, c.far)
                                      /\ r.col = ErrColumn(ev.src, c.far)
                                      /\ PrefixAt(r.shown, 1, ErrShown(ev.src, c.far))
          [] Prop = "C25" -> ~c.ok => /\ r.k = 0
                                      /\ SetOfSeq(r.exp) = c.exp /\ Len(r.exp) = Cardinality(c.exp)
                                      /\ Named(r.shown, ev.src, c.far, c.exp)
          [] OTHER -> TRUE

\* what a parser factory is asked for
OrderFits(tok, o) ==
    /\ o.t = tok.t
    /\ IF IsLit(tok) THEN o.s = tok.s
       ELSE /\ o.name = tok.name /\ o.end = tok.end
            /\ tok.t = "set" => SetOfSeq(o.cs) = tok.cs
            /\ \A j \in 1..Len(o.params) : o.params[j][1] \in {"min", "max"}
            /\ Bound(o.params, "min") = tok.min /\ Bound(o.params, "max") = tok.max
OrderOk(ev) ==
    \A c \in {Compile(ev.src)} :
    LET r == ev.r
    IN  CASE Prop = "C09" -> c.ok => /\ r.k = 1 /\ Len(r.toks) = Len(c.toks)
                                     /\ \A j \in 1..Len(c.toks) : OrderFits(c.toks[j], r.toks[j])
          [] OTHER -> CompileOk(ev)

-----------------------------------------------------------------------------
(* Loading.  What the matcher answers to the test messages is part of the     *)
(* trace: a matcher to which the same patterns are added one by one is asked. *)
InOrder(ev) == IF ev.rev = 0 THEN ev.items
               ELSE [j \in 1..Len(ev.items) |-> ev.items[Len(ev.items) + 1 - j]]
ItemPat(it) == [id |-> it.id, values |-> KV(it.values), tags |-> it.tags]
ItemMsg(te) == [m |-> te.m, values |-> KV(te.values), tags |-> te.tags]
TestAnswer(te) == IF te.ans = <<>> THEN <<>> ELSE <<te.ans[1][1], KV(te.ans[1][2])>>
WhyNot(it, te) == Reasons(ItemMsg(te), ItemPat(it), TestAnswer(te))
ItemFails(it) == it.bad = 1 \/ \E j \in 1..Len(it.tests) : WhyNot(it, it.tests[j]) # {}
FailingItems(items) == {n \in 1..Len(items) : ItemFails(items[n])}
ProbesAgree(ev) == \A j \in 1..Len(ev.probes) : SameAnswer(ev.probes[j][1], ev.probes[j][2])

TestKinds == {"value", "key", "nomatch", "other", "tags"}
BelongsTo(err, it) == IF it.bad = 1 THEN err.kind = "bad" /\ err.id = it.id
                      ELSE err.kind \in TestKinds /\ err.id = it.id

\* the labels of the details in an error text
lUuid == <<117,117,105,100,61>>                        \* uuid=
lKey  == <<107,101,121,61>>                            \* key=
lExp  == <<101,120,112,101,99,116,101,100,61>>         \* expected=
lGot  == <<103,111,116,61>>                            \* got=
lExpU == <<101,120,112,101,99,116,101,100,95>> \o lUuid
lGotU == <<103,111,116,95>> \o lUuid
lExpT == <<101,120,112,101,99,116,101,100,58,32>>      \* expected:
None  == <<78,111,110,101>>
\* a text between quotes, with what has to be escaped there
Bslash == 92
EscapedChar(c) == CASE c = Quote -> <<Bslash, Quote>>
                    [] c = Bslash -> <<Bslash, Bslash>>
                    [] c = 10 -> <<Bslash, 110>>
                    [] c = 13 -> <<Bslash, 114>>
                    [] c = 9 -> <<Bslash, 116>>
                    [] OTHER -> <<c>>
QuotedText(t) == FlattenSeq([j \in 1..Len(t) |-> EscapedChar(t[j])])
RECURSIVE Quoted(_)
Quoted(ts) == IF ts = <<>> THEN <<>>
              ELSE <<Quote>> \o QuotedText(ts[1]) \o <<Quote>> \o (IF Len(ts) = 1 THEN <<>> ELSE <<CommaC, Space>> \o Quoted(Tail(ts)))
ShownTags(tags) == IF tags = <<>> THEN None ELSE <<83,111,109,101,Lpar,91>> \o Quoted(tags[1]) \o <<93,Rpar>>
MarkOf(items, id) == items[CHOOSE j \in 1..Len(items) : items[j].id = id].mark

(* the text tells that the test te of the item it fails for the reason r      *)
Told(text, items, it, te, r) ==
    CASE r[1] = "value"   -> /\ Within(lUuid \o it.mark, text) /\ Within(lKey \o r[2], text)
                             /\ Within(lExp \o r[3], text) /\ Within(lGot \o r[4], text)
      [] r[1] = "key"     -> Within(lUuid \o it.mark, text) /\ Within(lKey \o r[2], text)
      [] r[1] = "nomatch" -> Within(lUuid \o it.mark, text) /\ Within(te.m, text)
      [] r[1] = "other"   -> /\ Within(lExpU \o it.mark, text) /\ Within(lGotU \o MarkOf(items, r[2]), text)
                             /\ Within(te.m, text)
      [] r[1] = "tags"    -> /\ Within(lUuid \o it.mark, text)
                             /\ Within(lExpT \o ShownTags(te.tags), text) /\ Within(lGot \o ShownTags(it.tags), text)
Carries(err, it, te, r) ==
    /\ err.kind = r[1] /\ err.id = it.id
    /\ r[1] = "value" => err.key = r[2] /\ err.want = r[3] /\ err.got = r[4]
    /\ r[1] = "key" => err.key = r[2]
    /\ r[1] = "nomatch" => err.m = te.m
    /\ r[1] = "other" => err.other = r[2] /\ err.m = te.m
    /\ r[1] = "tags" => err.wtags = te.tags /\ err.gtags = it.tags

(* the words that tell the kinds from each other, in the short description    *)
(* and in what stands before the first colon of the text                      *)
wValue == <<118,97,108,117,101>>            \* value
wKey == <<107,101,121>>                      \* key
wMessage == <<109,101,115,115,97,103,101>>  \* message
wOther == <<111,116,104,101,114>>            \* other
wTags == <<116,97,103,115>>                 \* tags
WordsOf(kd) == CASE kd = "value" -> {wValue} [] kd = "key" -> {wKey} [] kd = "nomatch" -> {wMessage}
                 [] kd = "other" -> {wMessage, wOther} [] kd = "tags" -> {wTags}
Words == {wValue, wKey, wMessage, wOther, wTags}
SpeaksOf(kd, t) == /\ \A w \in WordsOf(kd) : Within(w, t)
                   /\ kd \in {"value", "key", "other"} => \A w \in Words \ WordsOf(kd) : ~Within(w, t)
                   /\ kd = "nomatch" => ~Within(wOther, t) /\ ~Within(wValue, t) /\ ~Within(wKey, t) /\ ~Within(wTags, t)
                   /\ kd = "tags" => ~Within(wValue, t) /\ ~Within(wKey, t) /\ ~Within(wMessage, t)
Heading(t) == IF \E j \in 1..Len(t) : t[j] = Colon THEN SubSeq(t, 1, MinOf({j \in 1..Len(t) : t[j] = Colon}) - 1) ELSE t

(* the short description of an error is that of its kind                      *)
KindSeq == <<"value", "key", "nomatch", "other", "tags">>
Briefly(err) == /\ err.plain = 1 /\ Cardinality(SetOfSeq(err.descs)) = Len(KindSeq)
                /\ \E j \in 1..Len(KindSeq) : KindSeq[j] = err.kind /\ err.descs[j] = err.desc
                /\ SpeaksOf(err.kind, err.desc) /\ SpeaksOf(err.kind, Heading(err.text))
TrueCause(err, items) ==
    err.kind \in TestKinds => Briefly(err) /\
        \E n \in 1..Len(items) : items[n].id = err.id /\ items[n].bad = 0 /\
            \E j \in 1..Len(items[n].tests) : \E r \in WhyNot(items[n], items[n].tests[j]) :
                /\ Carries(err, items[n], items[n].tests[j], r)
                /\ Told(err.text, items, items[n], items[n].tests[j], r)

LoadOk(ev) ==
    LET items   == InOrder(ev)
        failing == FailingItems(items)
        strict  == ev.mode = "strict"
    IN  CASE Prop = "C11" ->
               IF strict THEN /\ (ev.out = "ok") <=> (failing = {})
                              /\ ev.out = "err" => \E n \in failing : BelongsTo(ev.err, items[n])
               ELSE /\ failing = {} => ev.log = <<>>
                    \* nothing is reported that does not belong to one that fails
                    /\ \A j \in 1..Len(ev.log) : \E n \in failing : Within(items[n].mark, ev.log[j])
                    /\ \A n \in failing : \E j \in 1..Len(ev.log) : Within(items[n].mark, ev.log[j])
          [] Prop = "C12" -> strict =>
               /\ IF failing = {} THEN ev.out = "ok" ELSE ev.out = "err" /\ BelongsTo(ev.err, items[MinOf(failing)])
               /\ ProbesAgree(ev)
          [] Prop = "C13" -> ~strict =>
               /\ ev.out = "ok" /\ ProbesAgree(ev)
               /\ Len(ev.log) = Cardinality(failing)
               /\ \A n \in failing : \E j \in 1..Len(ev.log) : Within(items[n].mark, ev.log[j])
          [] Prop = "C22" ->
               IF strict THEN ev.out = "err" => TrueCause(ev.err, items)
               ELSE \A n \in failing : items[n].bad = 0 =>
                       \E k \in 1..Len(ev.log) : \E j \in 1..Len(items[n].tests) :
                           \E r \in WhyNot(items[n], items[n].tests[j]) :
                               Told(ev.log[k], items, items[n], items[n].tests[j], r)
          [] OTHER -> TRUE

(* A test message held against a result put together by hand.  There is one   *)
(* of the pieces put in for each name; those without a name do not count.     *)
PutIn(ins) == {<<ins[j][1][1], ins[j][2]>> : j \in {k \in 1..Len(ins) : ins[k][1] # <<>>}}
Collected(vals, ins) == /\ KV(vals) \subseteq PutIn(ins) /\ KeysOf(KV(vals)) = KeysOf(PutIn(ins))
                        /\ Cardinality(KeysOf(KV(vals))) = Len(vals)
JudgeOk(ev) ==
    LET it == ev.items[1]
        why == WhyNot(it, it.tests[1])
    IN  CASE Prop = "C11" -> /\ ev.out = (IF why = {} THEN "ok" ELSE "err")
                             /\ ev.same = 1 /\ Collected(it.tests[1].ans[1][2], ev.ins)
          [] Prop = "C22" -> ev.out = "err" => ev.err.kind \in TestKinds /\ TrueCause(ev.err, ev.items)
          [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Documents and files *)
SaidTok(tok, s) == IF IsLit(tok) THEN s.t = "lit" /\ s.s = tok.s ELSE s.t = "par" /\ s.name = tok.name
SaidTest(te, s) == s.m = te.m /\ KV(s.values) = te.values /\ s.tags = te.tags
SaidPat(p, s) ==
    /\ s.uuid = p.uuid /\ s.name = p.name /\ s.tags = p.tags
    /\ Len(s.values) = Len(p.values)
    /\ Len(p.values) = 1 => KV(s.values[1]) = p.values[1]
    /\ Len(s.toks) = Len(p.toks) /\ \A j \in 1..Len(p.toks) : SaidTok(p.toks[j], s.toks[j])
    /\ Len(s.tests) = Len(p.tests) /\ \A j \in 1..Len(p.tests) : SaidTest(p.tests[j], s.tests[j])
SaidAll(ps, says) == Len(ps) = Len(says) /\ \A j \in 1..Len(ps) : SaidPat(ps[j], says[j])

(* the reason a rejected document is given; what is accepted is not logged    *)
WhyOk(faults, r) == CASE r.k = 0 -> SaysWhy(faults, r.err, r.log)
                      [] r.k = 1 -> faults = {} => r.log = <<>>
                      [] OTHER -> FALSE
WhyAllOk(ev) ==
    /\ \A faults \in {FileFaults(ev.doc)} : WhyOk(faults, ev.json) /\ WhyOk(faults, ev.yaml)
    /\ \A j \in 1..Len(ev.single) : WhyOk(PatternFaults(ev.doc.v[1][2].v[1]), ev.single[j])

DocOk(ev) ==
    IF Prop = "C23" THEN WhyAllOk(ev) ELSE
    \A says \in {IF FileDocOk(ev.doc) THEN <<FileOf(ev.doc)>> ELSE <<>>} :      \* evaluated once
    LET Fits(r) == IF says # <<>> THEN r.k = 1 /\ SaidAll(says[1], r.says) ELSE r.k = 0
    IN  /\ Fits(ev.json) /\ Fits(ev.yaml)
        /\ \A j \in 1..Len(ev.single) :
              LET d == ev.doc.v[1][2].v[1] IN
              IF PatternDocOk(d) THEN ev.single[j].k = 1 /\ SaidPat(PatternOf(d), ev.single[j].says[1])
              ELSE ev.single[j].k = 0

(* an error says what the error within it says, and that is what happened      *)
Speaks(r, state) == r.kind \notin {"ok", "panic"} =>
    /\ r.plain = 1
    /\ r.kind = "io" => r.os = SystemSays(state)
FileOk(ev) ==
    LET want == OutcomeOf(ev.path, ev.state)
        hits == IF ev.state = "none" THEN 0 ELSE 1
    IN  /\ ev.load.kind = want
        /\ Speaks(ev.load, ev.state)
        /\ \A s \in Sides : Speaks(ev.strict[s], ev.state) /\ Speaks(ev.lenient[s], ev.state)
        /\ want = "ok" => ev.load.hit = IF ev.state = "many" THEN 300 ELSE hits
        /\ \A s \in Sides :
             /\ ev.strict[s].kind = IF want = "ok" /\ ev.state = "failing" THEN "test" ELSE want
             /\ ev.lenient[s].kind = want
             /\ want = "ok" => ev.lenient[s].hit = hits
             /\ want = "ok" /\ ev.state # "failing" => ev.strict[s].hit = hits

-----------------------------------------------------------------------------
(* The literal index *)
LookOk(ev) == /\ ev.r = IF ev.s \in lits THEN 1 ELSE 0
              /\ ev.left >= 0 => ev.left = LeftOver(lits, ev.s)

(* The ordered vector: the elements in ascending order *)
Next1(ev) == CASE ev.op = "push" -> Placed(vec, ev.x)
               [] ev.op = "remove" -> Without(vec, ev.i)
               [] OTHER -> vec
Occurs(x) == {j \in 1..Len(vec) : vec[j] = x}
VecOk(ev) ==
    LET v == Next1(ev)
    IN  /\ ev.ok = 1
        /\ ev.all = v /\ ev.len = Len(v) /\ ev.empty = (IF v = <<>> THEN 1 ELSE 0)
        /\ CASE ev.op = "remove" -> ev.r = <<vec[ev.i]>>
             [] ev.op = "find" -> ev.r = IF Occurs(ev.x) = {} THEN <<>> ELSE <<ev.x>>
             [] ev.op = "pos" -> IF Occurs(ev.x) = {} THEN ev.r = 0 ELSE ev.r \in Occurs(ev.x)
             [] ev.op = "search" -> IF Occurs(ev.x) = {}
                                    THEN ev.k = 0 /\ InsertedAt(vec, ev.i, ev.x) = Placed(vec, ev.x)
                                    ELSE ev.k = 1 /\ ev.i \in Occurs(ev.x)
             [] ev.op = "get" -> ev.r = IF ev.i \in 1..Len(vec) THEN <<vec[ev.i]>> ELSE <<>>
             [] OTHER -> TRUE
PrefixOk(ev) ==
    LET n == CommonLen(ev.a, ev.b)
        bytes == Bytes(ev.a, n)
    IN  /\ ev.n = bytes
        /\ ev.h = (IF bytes = 0 THEN <<>> ELSE <<bytes>>)
        /\ ev.lt = <<From(ev.a, ev.j + 1)>> /\ ev.rt = <<SubSeq(ev.a, 1, ev.j)>>

-----------------------------------------------------------------------------
(* Patterns and builders, taken apart and put together *)
PartsAfter(ev) ==
    CASE ev.e = "pnone"  -> <<>>
      [] ev.e = "pnew"   -> Append(objs, [meta |-> ev.meta, toks |-> NormToks(ev.toks), tests |-> ev.tests])
      [] ev.e = "pcopy"  -> Append(objs, objs[ev.h])
      [] ev.e = "ptok"   -> [objs EXCEPT ![ev.h] = TokenGone(@)]
      [] ev.e = "ptest"  -> [objs EXCEPT ![ev.h] = TestGone(@)]
      [] ev.e = "pset"   -> [objs EXCEPT ![ev.h] = Retold(@, NormToks(ev.toks))]
      [] ev.e = "pbuild" -> [objs EXCEPT ![ev.h] = Retold(@, bld[ev.b])]
      [] OTHER -> objs
BuiltAfter(ev) ==
    CASE ev.e = "pnone" -> <<>>
      [] ev.e = "pb"    -> Append(bld, <<>>)
      [] ev.e = "pput"  -> [bld EXCEPT ![ev.b] = @ \o NormToks(<<ev.tok>>)]
      [] OTHER -> bld
SeenToks(toks, seen) == Len(toks) = Len(seen) /\ \A j \in 1..Len(toks) : SeenOk(toks[j], seen[j])
SameTest(x, y) == x.m = y.m /\ x.tags = y.tags /\ KV(x.values) = KV(y.values) /\ Len(x.values) = Len(y.values)
SeenPattern(o, s) == SameMeta(o.meta, s.meta) /\ SeenToks(o.toks, s.toks)
SeenWhole(o, s) == /\ SeenPattern(o, s) /\ Len(o.tests) = Len(s.tests)
                   /\ \A j \in 1..Len(o.tests) : SameTest(o.tests[j], s.tests[j])
PartsOk(ev) ==
    /\ CASE ev.e = "ptok"   -> SeenToks(FirstToken(objs[ev.h]), ev.r)
         [] ev.e = "ptest"  -> LET w == LastTest(objs[ev.h]) IN Len(w) = Len(ev.r) /\ (w # <<>> => SameTest(w[1], ev.r[1]))
         [] ev.e = "pbuild" -> SeenToks(bld[ev.b], ev.r)
         [] ev.e = "pbare"  -> /\ Cardinality(SetOfSeq(ev.uuids)) = Len(ev.uuids)
                               /\ \A j \in 1..Len(ev.seen) : SeenWhole([meta |-> [ev.seen[j].meta EXCEPT !.name = <<>>, !.values = <<>>, !.tags = <<>>],
                                                                        toks |-> <<>>, tests |-> <<>>], ev.seen[j])
         \* a pattern file: what it holds in order, and what it gives away
         [] ev.e = "pfile"  -> /\ Len(ev.held) = Len(ev.hs) /\ \A j \in 1..Len(ev.hs) : SeenPattern(objs[ev.hs[j]], ev.held[j])
                               /\ Len(ev.out) = Len(ev.hs) /\ ev.more = 0
                               /\ \A j \in 1..Len(ev.hs) : SeenWhole(objs[ev.hs[j]], ev.out[Len(ev.hs) + 1 - j])
         [] OTHER -> TRUE
    /\ ev.full = 1 => \A after \in {PartsAfter(ev)} : Len(after) = Len(ev.all) /\ \A j \in 1..Len(after) : SeenPattern(after[j], ev.all[j])
PartEvents == {"pnone", "pnew", "pcopy", "ptok", "ptest", "pset", "pbuild", "pb", "pput", "pbare", "pfile"}

-----------------------------------------------------------------------------
TraceInit == l = 1 /\ Init /\ lits = {} /\ vec = <<>> /\ objs = <<>> /\ bld = <<>>

Conforms(ev) ==
    CASE ev.e = "ask"     -> BothOk(ev) /\ \A s \in Sides : AskOk(ev.h, ev.t, ev.a[s])
      [] ev.e = "add"     -> /\ Prop \in {"C02", "C05"} => ev.p = 0
                             /\ Prop = "C04" => ev.p \in {0, 3}          \* neither fails, or both
      [] ev.e = "solo"    -> SoloOk(ev)
      [] ev.e = "prun"    -> PrunOk(NormPar(ev.p), ev.t, ev.r)
      [] ev.e = "hash"    -> HashOk(ev)
      [] ev.e = "compile" -> CompileOk(ev)
      [] ev.e = "order"   -> OrderOk(ev)
      [] ev.e = "load"    -> LoadOk(ev)
      [] ev.e = "judge"   -> JudgeOk(ev)
      [] ev.e = "doc"     -> DocOk(ev)
      [] ev.e = "file"    -> FileOk(ev)
      [] ev.e = "lins"    -> ev.p = 0
      [] ev.e = "llook"   -> LookOk(ev)
      [] ev.e = "vop"     -> VecOk(ev)
      [] ev.e = "cpl"     -> PrefixOk(ev)
      [] ev.e = "long"    -> ev.k # 2
      [] ev.e = "flat"    -> ev.r = FlattenSeq(ev.vs)
      [] ev.e \in PartEvents -> PartsOk(ev)
      [] OTHER -> TRUE

Moves(ev) ==
    /\ objs' = PartsAfter(ev) /\ bld' = BuiltAfter(ev)
    /\ CASE ev.e = "reset" -> hist' = [h \in Handles |-> Unused] /\ UNCHANGED <<lits, vec>>
         [] ev.e = "new"   -> New(ev.h) /\ UNCHANGED <<lits, vec>>
         [] ev.e = "add"   -> Add(ev.h, l) /\ UNCHANGED <<lits, vec>>
         [] ev.e = "clone" -> Clone(ev.h, ev.g) /\ UNCHANGED <<lits, vec>>
         [] ev.e = "ask"   -> Ask(ev.h) /\ UNCHANGED <<lits, vec>>
         [] ev.e = "lnew"  -> lits' = {} /\ UNCHANGED <<hist, vec>>
         [] ev.e = "lins"  -> lits' = lits \cup {ev.s} /\ UNCHANGED <<hist, vec>>
         [] ev.e = "vnew"  -> vec' = <<>> /\ UNCHANGED <<hist, lits>>
         [] ev.e = "vop"   -> vec' = Next1(ev) /\ UNCHANGED <<hist, lits>>
         [] OTHER -> UNCHANGED <<hist, lits, vec>>

Known == {"reset", "new", "add", "clone", "busy", "ask", "solo", "prun", "hash", "compile", "order", "load", "judge", "doc", "file",
          "lnew", "lins", "llook", "vnew", "vop", "cpl", "flat", "long"} \cup PartEvents

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l]
       IN  /\ ev.e \in Known
           /\ IF Conforms(ev) THEN TRUE ELSE PrintT(<<"REJECTED", l>>) /\ FALSE
           /\ Moves(ev)
    /\ l' = l + 1

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* the whole trace is a behaviour of the specification *)
Accepted == PrintT(<<"WALKED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
