------------------------------ MODULE Library -------------------------------
(***************************************************************************)
(* The whole library as one transition system: a table of live objects and *)
(* the calls on them.  A call changes only the object it is made on.       *)
(*   New(c, a)         the object built by constructor c, and the result   *)
(*   Call(ob, op, a, r) the object after op, and the result; r is the      *)
(*       recorded result, used only where the specification allows a set   *)
(*       of results (floating point draws)                                 *)
(***************************************************************************)
EXTENDS Skips, Util, RngList, Tables3, Arceus, Personal, Custom, Records

Refused == <<0, 0, 0, 0, 0, 0, 0, 0, 0>>        \* the call raised an exception
PowerOfTwo(n) == n > 0 /\ And32(n, n - 1) = 0

New(c, a) ==
  CASE c.k = "UTIL" -> <<[cls |-> "UTIL"], NoResult>>
    [] c.k = "RL" ->
         IF PowerOfTwo(c.size) THEN <<NewList(NewPrng(c.gen, a), c.m, c.size, c.big), NoResult>>
         ELSE <<[cls |-> "none"], Refused>>
    [] c.k = "SHA1" -> <<NewSha(c, a), NoResult>>
    [] c.k = "GEN3" -> <<NewGen3(c, a), NoResult>>
    [] c.k = "STATE3" -> <<NewState3(c, a), NoResult>>
    [] c.k = "UTIL3" -> <<[cls |-> "UTIL3"], NoResult>>
    [] c.k = "ENC3" -> <<[cls |-> "ENC3", game |-> c.game], NoResult>>
    [] c.k = "FB" -> <<NewReader(c), NoResult>>
    [] c.k = "TABLE8" -> <<NewTable8(c), NoResult>>
    [] c.k = "AREAS8" -> <<NewArea8(c), NoResult>>
    [] c.k = "CHOOSE8" -> <<NewChooser(c), NoResult>>
    [] c.k = "PERSONAL" -> <<NewPersonal(c), NoResult>>
    [] c.k = "GAMES" -> <<[cls |-> "GAMES", names |-> c.names], NoResult>>
    [] c.k = "ENUM" -> <<[cls |-> "ENUM", enum |-> c.enum, names |-> c.names], NoResult>>
    [] c.k = "TALLY" -> <<NewTally(a), NoResult>>
    [] c.k = "FUNCTION" -> <<[cls |-> "FUNCTION"], NoResult>>
    [] c.k = "STORE" -> <<NewStore(c), NoResult>>
    [] c.k = "RECORD" -> <<NewRecords(c), NoResult>>
    [] c.k = "CACHE" -> <<[cls |-> "CACHE"], NoResult>>
    [] OTHER -> <<NewPrng(c.k, a), NoResult>>

One(ob, op, a, r) ==
  CASE ob.cls = "UTIL" -> <<ob, UtilDo(op, a)>>
    [] ob.cls = "RL" -> ListDo(ob, op, a)
    [] ob.cls = "SHA1" -> ShaDo(ob, op, a)
    \* in an area of the game's own tables
    [] ob.cls = "GEN3" /\ op = "hunt" -> 
         LET area == TLCEval(AreaOf(ob.game, a[5][1])) IN <<ob, Generate(ob, a[1][1], a[2][1], a[3][1], a[4][1], area)>>
    [] ob.cls = "GEN3" -> Gen3Do(ob, op, a)
    [] ob.cls = "STATE3" -> State3Do(ob, op, a)
    [] ob.cls = "UTIL3" -> <<ob, Gen3Util(op, a)>>
    [] ob.cls = "ENC3" -> Tables3Do(ob, op, a)
    [] ob.cls = "FB" -> FbDo(ob, op, a)
    [] ob.cls = "TABLE8" -> Table8Do(ob, op, a)
    [] ob.cls = "AREAS8" -> Areas8Do(ob, op, a)
    [] ob.cls = "CHOOSE8" -> ChooserDo(ob, op, a, r)
    [] ob.cls = "PERSONAL" -> PersonalDo(ob, op, a)
    [] ob.cls = "GAMES" -> GamesDo(ob, op, a, r)
    [] ob.cls = "ENUM" -> EnumDo(ob, op, a, r)
    [] ob.cls = "TALLY" -> TallyDo(ob, op, a)
    [] ob.cls = "FUNCTION" -> <<ob, FunctionDo(op, a)>>
    [] ob.cls = "STORE" -> StoreDo(ob, op, a)
    [] ob.cls = "RECORD" -> RecordsDo(ob, op, a)
    [] ob.cls = "CACHE" -> <<ob, NoResult>>          \* no state of the cache files matters
    \* "frac": bounds and value are multiples of a power of two, which takes no part
    [] ob.cls = "XS" /\ op \in {"flt", "frac"} ->
         LET s1 == XsStep(ob.s)
         IN <<[ob EXCEPT !.s = s1],
              IF Len(r) = 1 /\ FltOk(s1[4], a[1][1], a[2][1], r[1]) THEN r ELSE Unknown>>
    [] ob.cls = "XS" /\ op = "unit" ->
         LET s1 == XsStep(ob.s)
         IN <<[ob EXCEPT !.s = s1],
              IF Len(r) = 1 /\ UnitOk(s1[4], a[1][1], a[2][1], r[1]) THEN r ELSE Unknown>>
    [] OTHER -> Do(ob, op, a)

\* k calls of op one after another, results concatenated
Many(ob, op, a, k) ==
  FoldLeft(LAMBDA acc, i : LET d == Do(acc[1], op, a) IN <<d[1], acc[2] \o d[2]>>,
           <<ob, <<>>>>, Range0(k))

Gets(ob, k) ==
  FoldLeft(LAMBDA acc, i : LET d == ListDo(acc[1], "get", <<>>) IN <<d[1], acc[2] \o d[2]>>, <<ob, <<>>>>, Range0(k))

Call(ob, op, a, r) ==
  CASE op = "inner" /\ ob.cls = "RL" -> Gets(ob, a[1][1])
    \* the same calls made by user code
    [] op \in {"nexts", "inner", "held"} -> Many(ob, "next", <<>>, a[1][1])
    [] op = "leaps" ->
         FoldLeft(LAMBDA acc, i : LET d == Do(Do(acc[1], "cjump", <<a[1]>>)[1], "next", <<>>) IN <<d[1], acc[2] \o d[2]>>,
                  <<ob, <<>>>>, Range0(a[2][1]))
    [] op = "scan" ->
         FoldLeft(LAMBDA acc, i : LET d == ShaDo(ShaDo(acc[1], "time", <<a[1], a[2], <<i - 1>>>>)[1], "hash", <<>>) IN <<d[1], acc[2] \o d[2]>>,
                  <<ob, <<>>>>, Range0(a[3][1]))
    [] op = "prevs" -> Many(ob, "prev", <<>>, a[1][1])
    [] op = "rands" -> Many(ob, "rand", <<a[2]>>, a[1][1])
    [] op = "gets" -> Gets(ob, a[1][1])
    [] op = "far" /\ ob.cls = "RL" ->
         <<ob, IF r = GivenUp THEN r ELSE Gets(Slide(ob, a[1][1]), 3)[2]>>
    [] op = "far" -> Far(ob, IF Len(a[1]) = 1 THEN <<0, a[1][1]>> ELSE a[1], r)
    [] OTHER -> One(ob, op, a, r)

\* re-initialise ob with the seed other has reached
Take(ob, other) == <<[ob EXCEPT !.s = other.s], NoResult>>

\* the public state attribute, where there is one
Observe(ob) == IF ob.cls \in {"LCG32", "LCG64", "XS", "XO", "XM"} THEN Obs(ob) ELSE <<>>
=============================================================================
