-------------------------------- MODULE MC_Load -------------------------------
(* All sources of at most MaxItems items of a small universe.                 *)
EXTENDS Loading, TLC, Json
CONSTANTS MaxItems, DoEmit

a == 97  b == 98  n1 == 49
x == <<120>>  y == <<121>>
INTx == IntP(<<x>>, NoBound, NoBound)

Msg(m, vals, tags) == [m |-> m, values |-> vals, tags |-> tags]
Item(toks, vals, tags, tests) == [bad |-> FALSE, toks |-> toks, values |-> vals, tags |-> tags, tests |-> tests]
Bad == [bad |-> TRUE, toks |-> <<>>, values |-> {}, tags |-> <<>>, tests |-> <<>>]

t1 == <<<<116>>>>                      \* the tag "t"
tt == <<<<116>>, <<117>>>>             \* "t", "u"

Universe == <<
  Bad,
  Item(<<Lit(<<a>>), INTx>>, {}, <<>>, <<Msg(<<a, n1>>, {<<x, <<n1>>>>}, <<>>)>>),
  Item(<<Lit(<<a>>), INTx>>, {<<y, <<b>>>>, <<x, <<b>>>>}, <<tt>>,
       <<Msg(<<a, n1, n1>>, {<<x, <<n1, n1>>>>, <<y, <<b>>>>}, <<t1>>), Msg(<<a, n1>>, {}, <<<<>>>>)>>),
  \* matches only as long as no later pattern is preferred
  Item(<<GreedyP(<<y>>, <<>>)>>, {}, <<t1>>, <<Msg(<<a, n1>>, {<<y, <<a, n1>>>>}, <<>>)>>),
  \* wrong value / missing key / wrong tag / does not match
  Item(<<Lit(<<a>>)>>, {<<y, <<b>>>>}, <<>>, <<Msg(<<a>>, {<<y, <<a>>>>, <<x, <<a>>>>}, <<>>)>>),
  Item(<<Lit(<<a>>)>>, {}, <<t1>>, <<Msg(<<a>>, {}, <<tt>>), Msg(<<a>>, {}, <<t1>>)>>),
  Item(<<Lit(<<b>>)>>, {}, <<>>, <<Msg(<<a>>, {}, <<>>)>>),
  \* passes, then fails with its first test
  Item(<<Lit(<<b>>), INTx>>, {}, <<>>, <<Msg(<<b>>, {}, <<>>), Msg(<<b, n1>>, {}, <<>>)>>),
  Item(<<Lit(<<a>>)>>, {}, <<>>, <<>>),
  Item(<<Lit(<<a>>)>>, {}, <<>>, <<Msg(<<a>>, {}, <<<<>>>>)>>)
>>
WithId(u, n) == Universe[u] @@ [id |-> n]
MCSources == UNION {{[j \in 1..n |-> WithId(f[j], j)] : f \in [1..n -> 1..Len(Universe)]} : n \in 0..MaxItems}

Emit ==
    (DoEmit /\ Over) =>
        PrintT(ToJson([k |-> "load", mode |-> mode, items |-> source, out |-> out,
                       failing |-> Failing(source),
                       reasons |-> [n \in 1..Len(source) |->
                          IF source[n].bad THEN <<>>
                          ELSE [j \in 1..Len(source[n].tests) |->
                                  Reasons(source[n].tests[j], PatOf(source[n]),
                                          AnswerOf(ReadableUpTo(source, n), source[n].tests[j].m))]],
                       kept |-> [j \in 1..Len(kept) |-> kept[j].id], log |-> log]))
=============================================================================
