------------------------------- MODULE MC_Prefix ------------------------------
(* Common prefixes: all pairs of texts of at most MaxText characters, whose   *)
(* encodings share bytes without sharing characters.                          *)
EXTENDS Utils, TLC, Json
CONSTANTS MaxText, DoEmit
\* a, b, é, è, ¡ (shares only its second byte with others), €, ₭, 😀, 😁
Alphabet == {97, 98, 233, 232, 161, 8364, 8365, 128512, 128513}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxText}
VARIABLES s, t
Init == s \in Texts /\ t = <<>>
Next == t = <<>> /\ t' \in Texts \ {<<>>} /\ s' = s
(* C21: bytes and characters agree *)
Agree == /\ CommonBytes(s, t) = Bytes(s, CommonLen(s, t))
         /\ Len(Encoded(s)) = Bytes(s, Len(s))
         /\ Less(s, t) <=> Less(Encoded(s), Encoded(t))
Emit == DoEmit => PrintT(ToJson([k |-> "pre", a |-> s, b |-> t, n |-> CommonBytes(s, t)]))
=============================================================================
