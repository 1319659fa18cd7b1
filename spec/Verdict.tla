-------------------------------- MODULE Verdict -------------------------------
(* Test messages (src/matcher/pattern/testmessage, pattern_source).           *)
(*                                                                            *)
(* A pattern: [id, values, tags]   values: set of <<key, value>>;             *)
(*                                 tags: <<>> (none given) or <<sequence>>    *)
(* A test message: [m, values, tags]  the message and what is expected of it  *)
(* An answer: <<>> or <<id of the matching pattern, set of <<key, value>> >>  *)
EXTENDS Text

KeysOf(kvs) == {kv[1] : kv \in kvs}
ValueOf(kvs, key) == (CHOOSE kv \in kvs : kv[1] = key)[2]
TagSet(tags) == IF tags = <<>> THEN {} ELSE SetOfSeq(tags[1])

(* the pattern's own values, overridden by the parsed ones *)
Merged(own, parsed) == {kv \in own : kv[1] \notin KeysOf(parsed)} \cup parsed

(* Expectations of a test message that a result of the pattern p with the     *)
(* parsed values does not meet.                                               *)
Unmet(msg, p, parsed) ==
    LET got == Merged(p.values, parsed)
    IN  (IF TagSet(msg.tags) \subseteq TagSet(p.tags) THEN {} ELSE {<<"tags">>})
        \cup {<<"key", kv[1]>> : kv \in {e \in msg.values : e[1] \notin KeysOf(got)}}
        \cup {<<"value", kv[1], kv[2], ValueOf(got, kv[1])>> :
                 kv \in {e \in msg.values : e[1] \in KeysOf(got) /\ ValueOf(got, e[1]) # e[2]}}

(* Why the test message msg of the pattern p fails, given the answer; {}: it  *)
(* passes.                                                                    *)
Reasons(msg, p, ans) ==
    IF ans = <<>> THEN {<<"nomatch">>}
    ELSE IF ans[1] # p.id THEN {<<"other", ans[1]>>}
    ELSE Unmet(msg, p, ans[2])

Passes(msg, p, ans) == Reasons(msg, p, ans) = {}
=============================================================================
