------------------------------- MODULE Arceus -------------------------------
(***************************************************************************)
(* The data of Legends Arceus: the shipped tables (FlatBuffers), the       *)
(* encounter areas built from them, and the choice of a slot.              *)
(***************************************************************************)
EXTENDS FlatBuffer, Shipped, FiniteSets

\* absent integers and flags are 0, absent floats 0.0
Int32(b, t, f) == LET p == FieldAt(b, t, 4 + (2 * f)) IN IF p = 0 THEN 0 ELSE Word(b, p)
Id(b, t, f) == LET p == FieldAt(b, t, 4 + (2 * f)) IN IF p = 0 THEN <<0, 0>> ELSE Double(b, p)
Flag(b, t, f) == LET p == FieldAt(b, t, 4 + (2 * f)) IN IF p # 0 /\ ByteAt(b, p) # 0 THEN 1 ELSE 0
Child(b, t, f) == LET p == FieldAt(b, t, 4 + (2 * f)) IN IF p = 0 THEN 0 ELSE Follow(b, p)
Children(b, t, f) == LET p == FieldAt(b, t, 4 + (2 * f)) IN IF p = 0 THEN <<>> ELSE Elements(b, p)
Floats(b, t, from, count) == [i \in 1..count |-> Int32(b, t, from + i - 1)]     \* bits
FloatOne == 1065353216                                                          \* 1.0
Join(f(_), s) == FoldLeft(LAMBDA acc, x : acc \o f(x), <<>>, s)

------------------------------------------------------------------------------
\* Records: <<key fields>> and all exposed fields, per kind of table
SpawnerId(b, t) == Id(b, t, 0)
Spawner(b, t) ==
  LET place == Child(b, Children(b, t, 2)[1], 7)
  IN Id(b, t, 0) \o Id(b, t, 1) \o Floats(b, place, 0, 3) \o <<Int32(b, t, 7), Int32(b, t, 8)>>
     \o <<Flag(b, t, 10), Flag(b, t, 11), Flag(b, t, 12)>> \o Id(b, Children(b, t, 20)[1], 0)
\* time multipliers of dawn, day, dusk, night; the first weather (none) always counts 1
Times(b, t, f) == Floats(b, t, f, 4)
Weathers(b, t, f) == <<FloatOne>> \o Floats(b, t, f + 4, 8)
Multiplier(b, t) == <<Int32(b, t, 0), Int32(b, t, 1)>> \o Times(b, t, 2) \o Weathers(b, t, 2)
Misc(b, t) == <<Int32(b, t, 0), Int32(b, t, 1), Int32(b, t, 6)>>
IsAlpha(b, s) ==
  LET o == Child(b, s, 46) IN IF o = 0 THEN 0 ELSE IF Flag(b, o, 0) = 1 \/ Flag(b, o, 1) = 1 THEN 1 ELSE 0
RawSlot(b, s) ==
  LET e == Child(b, s, 45)
  IN << Int32(b, s, 0), Int32(b, s, 2), Int32(b, s, 3), Int32(b, s, 25), Int32(b, s, 29), Int32(b, s, 30), Int32(b, s, 31) >>
     \o Times(b, e, 7) \o Weathers(b, e, 7) \o <<IsAlpha(b, s)>>
Encounters(b, t) ==
  LET ss == Children(b, t, 3)
  IN Id(b, t, 0) \o <<Int32(b, t, 1), Int32(b, t, 2), Len(ss)>> \o Join(LAMBDA s : RawSlot(b, s), ss)
OutbreakGroup(b, t) ==
  LET waves == Children(b, t, 1)
  IN Id(b, t, 0) \o <<Len(waves)>> \o Join(LAMBDA x : Id(b, x, 7), waves) \o Id(b, t, 2)
Ids(b, ts) == Join(LAMBDA x : Id(b, x, 0), ts)
Lottery(b, t) ==
  LET c == Children(b, t, 1) r1 == Children(b, t, 2) r2 == Children(b, t, 3)
  IN Id(b, t, 0) \o <<Len(c), Len(r1), Len(r2)>> \o Ids(b, c) \o Ids(b, r1) \o Ids(b, r2) \o Ids(b, c \o r1 \o r2)

Record(kind, b, t) ==
  CASE kind = "spawner" -> Spawner(b, t)
    [] kind = "multiplier" -> Multiplier(b, t)
    [] kind = "misc" -> Misc(b, t)
    [] kind = "encounter" -> Encounters(b, t)
    [] kind = "group" -> OutbreakGroup(b, t)
    [] kind = "lottery" -> Lottery(b, t)
Rows(b) == Children(b, Root(b), 0)
\* a record's key in the n-th lookup of its table
Key(kind, n, b, t) ==
  CASE kind \in {"multiplier", "misc"} -> <<Int32(b, t, 0), Int32(b, t, 1)>>
    [] kind = "spawner" /\ n = 2 -> Id(b, t, 1)
    [] OTHER -> Id(b, t, 0)

\* a shipped file by name, or the given bytes
NewTable8(c) == [cls |-> "TABLE8", kind |-> c.tab, file |-> c.file, buf |-> c.buf]
Bytes(ob) == IF ob.file = "" THEN ob.buf ELSE File(ob.file)
Keys(kind, n, b) == LET rs == Rows(b) IN TLCEval([i \in 1..Len(rs) |-> Key(kind, n, b, rs[i])])
\* the number of the row with a key, 0 if there is none; keys are distinct
Where(keys, key) ==
  LET hits == {i \in 1..Len(keys) : keys[i] = key} IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE
Table8Do(ob, op, a) ==
  LET b == Bytes(ob)
      rs == Rows(b)
  IN CASE op = "count" -> <<ob, <<Len(rs)>>>>
       [] op = "rows" -> <<ob, Join(LAMBDA i : Record(ob.kind, b, rs[a[1][1] + i]), Range0(a[2][1]))>>
       [] op = "find" ->
            LET i == Where(Keys(ob.kind, a[1][1], b), a[2]) IN <<ob, IF i = 0 THEN <<>> ELSE Record(ob.kind, b, rs[i])>>
       [] op = "lookup" ->               \* every row is filed under its key, and nothing else is
            <<ob, <<Len(rs)>> \o [i \in 1..Len(rs) |-> 1]>>
       [] OTHER -> <<ob, Unknown>>

------------------------------------------------------------------------------
\* Encounter areas
Boosts == <<15, 15, 15, 20, 20>>                \* by the species' alpha level index
\* rows by species and form
RowsBy(kind, b) ==
  LET rs == Rows(b)
      keys == Keys(kind, 1, b)
  IN [k \in {keys[i] : i \in 1..Len(rs)} |-> rs[Where(keys, k)]]
MultiplierRows == IF GivenFile("poke_encount") THEN RowsBy("multiplier", File("poke_encount")) ELSE <<>>
MiscRows == IF GivenFile("poke_misc") THEN RowsBy("misc", File("poke_misc")) ELSE <<>>
NegativeFloat(x) == x < 0 /\ x # (-2147483647 - 1)    \* the sign bit, but not minus zero
\* the slot's own multiplier, else the species', else 1
Choose1(own, species) == IF ~NegativeFloat(own) THEN own ELSE IF ~NegativeFloat(species) THEN species ELSE FloatOne
Level8(override, table) == IF 1 <= override /\ override <= 100 THEN override ELSE table

\* species, gender (as a byte: any is 255), form, levels, guaranteed IVs, probability, alpha, multipliers
AreaSlot(b, t, s) ==
  LET sp == <<Int32(b, s, 0), Int32(b, s, 3)>>
      e == Child(b, s, 45)
      pe == File("poke_encount")
      m == MultiplierRows[sp]
      alpha == IsAlpha(b, s)
      boost == IF alpha = 0 THEN 0 ELSE Boosts[Int32(File("poke_misc"), MiscRows[sp], 6)]
      pick(own, species) == [i \in 1..Len(own) |-> Choose1(own[i], species[i])]
  IN << sp[1], And32(Int32(b, s, 2), 255), sp[2], Level8(Int32(b, s, 30), Int32(b, t, 1)) + boost,
        Level8(Int32(b, s, 31), Int32(b, t, 2)) + boost, Int32(b, s, 25), Int32(b, s, 29), alpha >>
     \o pick(Times(b, e, 7), Times(pe, m, 2)) \o pick(Weathers(b, e, 7), Weathers(pe, m, 2))
AreaRow(b, t) ==
  LET ss == Children(b, t, 3)
  IN Id(b, t, 0) \o <<Len(ss)>> \o Join(LAMBDA s : AreaSlot(b, t, s), ss)
SlotSize == 21
AreaSlots(b, t) == LET ss == Children(b, t, 3) IN [i \in 1..Len(ss) |-> AreaSlot(b, t, ss[i])]

AreaFile == <<"ha_area01_encounter", "ha_area02_encounter", "ha_area03_encounter", "ha_area04_encounter", "ha_area05_encounter">>
NewArea8(c) == [cls |-> "AREAS8", area |-> c.area]
\* all areas of a map in two words
AreaDigest(area) ==
  LET b == File(AreaFile[area])
      rs == Rows(b)
  IN <<Len(rs), FoldLeft(LAMBDA h, t : FoldLeft(LAMBDA g, x : Xor32(Rotl32(g, 5), x), h, AreaRow(b, t)), 0, rs)>>
AreaDigests == IF Given("digests") THEN [i \in 1..Len(Data.digests) |-> AreaDigest(Data.digests[i])] ELSE <<>>
DigestOfArea(area) == AreaDigests[CHOOSE i \in 1..Len(Data.digests) : Data.digests[i] = area]
Areas8Do(ob, op, a) ==
  LET b == File(AreaFile[ob.area])
      rs == Rows(b)
  IN CASE op = "count" -> <<ob, <<Len(rs)>>>>
       [] op = "digest" -> <<ob, DigestOfArea(ob.area)>>
       [] op = "fs" -> <<ob, NoResult>>
       \* the areas filed under the identifiers of some rows
       [] op = "rows" -> <<ob, Join(LAMBDA i : AreaRow(b, rs[a[1][1] + i]), Range0(a[2][1]))>>
       [] OTHER -> <<ob, Unknown>>

------------------------------------------------------------------------------
\* Choosing a slot: weight = probability * time multiplier * weather
\* multiplier; r = k / 2^24 falls into the slot whose cumulative interval
\* contains r * total.  Multipliers are whole multiples of 2^-23.
\* the 32-bit float x >= 0 as a multiple of 2^-23 (below 2^8)
Fixed23(x) ==
  LET e == Shr32(x, 23)
      m == And32(x, 8388607) + 8388608
  IN IF x = 0 THEN 0 ELSE IF e >= 127 THEN Shl32(m, e - 127) ELSE Shr32(m, 127 - e)
Weight(slot, time, weather) ==
  Mul64(MulWide(Fixed23(slot[9 + time]), Fixed23(slot[13 + weather])), <<0, slot[7]>>)
Weights(slots, time, weather) == [i \in 1..Len(slots) |-> Weight(slots[i], time, weather)]
\* running totals
Totals(ws) == FoldLeft(LAMBDA acc, x : Append(acc, IF acc = <<>> THEN x ELSE Add64(acc[Len(acc)], x)), <<>>, ws)
\* floor(k * total / 2^24)
Scaled(total, k) ==
  LET high == Shr64(total, 24)
      low == <<0, And32(total[2], 16777215)>>
  IN Add64(Mul64(high, <<0, k>>), Shr64(Mul64(low, <<0, k>>), 24))
FirstAbove(totals, v) ==
  LET hits == {i \in 1..Len(totals) : Lt64(v, totals[i])}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
\* binary fractions are exact; otherwise floating point may miss the boundary by 2^-40 of the total
Exact(slots, time, weather) ==
  \A i \in 1..Len(slots) : /\ And32(Fixed23(slots[i][9 + time]), 1048575) = 0
                           /\ And32(Fixed23(slots[i][13 + weather]), 1048575) = 0
\* the numbers of the slots that may be chosen for v, give or take some slack
Near(weights, totals, v, slack) ==
  LET low == IF Lt64(v, slack) THEN Zero64 ELSE Sub64(v, slack)
  IN {i \in {FirstAbove(totals, v), FirstAbove(totals, low), FirstAbove(totals, Add64(v, slack))} \ {0} : weights[i] # Zero64}
Chosen(weights, totals, exact, k) ==
  LET total == totals[Len(totals)]
  IN Near(weights, totals, Scaled(total, k), IF exact THEN Zero64 ELSE Shr64(total, 40))
\* the same for r = 1 - 2^-e, which may be closer to 1 than any float
Highest(weights, totals, e) ==
  LET total == totals[Len(totals)]
  IN Near(weights, totals, Sub64(Sub64(total, Shr64(total, e)), One64), Shr64(total, 40))

NewChooser(c) ==
  [cls |-> "CHOOSE8",
   slots |-> IF c.area = 0 THEN c.slots
             ELSE LET b == File(AreaFile[c.area]) IN AreaSlots(b, Rows(b)[Where(Keys("encounter", 1, b), c.id)])]
\* a = <<<<time>>, <<weather>>, <<count>>, <<k>>, <<step>>>>: draws k, k + step, ... modulo 2^24;
\* the result is the chosen slots' species, gender, form, levels, guaranteed IVs, probability, alpha
Shown(slot) == SubSeq(slot, 1, 8)
ChooserDo(ob, op, a, r) ==
  CASE op = "calc" ->
         LET ws == TLCEval(Weights(ob.slots, a[1][1], a[2][1]))
             ts == TLCEval(Totals(ws))
             exact == Exact(ob.slots, a[1][1], a[2][1])
             k(i) == And32(Add32(a[4][1], Mul32(a[5][1], i - 1)), 16777215)
             some(i, from) == SubSeq(r, (8 * i) - 7, 8 * i) \in {Shown(ob.slots[j]) : j \in from}
             none == ts[Len(ts)] = Zero64
             good(i) == some(i, IF none THEN 1..Len(ws) ELSE Chosen(ws, ts, exact, k(i)))
         IN \* without any weight, any slot may come out
            <<ob, IF Len(r) = 8 * a[3][1] /\ (\A i \in 1..a[3][1] : good(i)) THEN r ELSE Unknown>>
    \* a = <<<<time>>, <<weather>>, <<count>>, <<e>>>>: draws 1 - 2^-e, 1 - 2^-(e+1), ...
    [] op = "highest" ->
         LET ws == TLCEval(Weights(ob.slots, a[1][1], a[2][1]))
             ts == TLCEval(Totals(ws))
             none == ts[Len(ts)] = Zero64
             good(i) == SubSeq(r, (8 * i) - 7, 8 * i) \in
               {Shown(ob.slots[j]) : j \in IF none THEN 1..Len(ws) ELSE Highest(ws, ts, a[4][1] + i - 1)}
         IN <<ob, IF Len(r) = 8 * a[3][1] /\ (\A i \in 1..a[3][1] : good(i)) THEN r ELSE Unknown>>
    [] OTHER -> <<ob, Unknown>>
=============================================================================
