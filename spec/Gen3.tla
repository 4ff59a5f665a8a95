-------------------------------- MODULE Gen3 --------------------------------
(***************************************************************************)
(* Wild encounters of the Gen 3 games, written from the games' own order   *)
(* of calls: every decision consumes 16-bit draws of the 32-bit generator. *)
(* Draws are threaded explicitly: an operator takes the seed before its    *)
(* first draw and returns the seed after its last one.                     *)
(*                                                                         *)
(* Words are TLC integers; texts are sequences of code points.             *)
(* An area is a sequence of 101 integers in the order of the record:       *)
(*   location, land rate, 12 slots, water rate, 5 slots, rock rate,        *)
(*   5 slots, fishing rate, 2 + 3 + 5 slots;                               *)
(* a slot is minimum level, maximum level, species + 2048 * form.          *)
(***************************************************************************)
EXTENDS Pids, Shipped

------------------------------------------------------------------------------
\* Encounter data
\* encounter types that have their own category; everything else walks on land
RockSmash == 3  Surfing == 4  OldRod == 6  GoodRod == 7  SuperRod == 8
Category(enc) ==                        \* <<position of the first slot, number of slots, position of the rate>>
  CASE enc = RockSmash -> <<56, 5, 55>>
    [] enc = Surfing -> <<40, 5, 39>>
    [] enc = OldRod -> <<72, 2, 71>>
    [] enc = GoodRod -> <<78, 3, 71>>
    [] enc = SuperRod -> <<87, 5, 71>>
    [] OTHER -> <<3, 12, 2>>
Slots(area, enc) ==
  LET c == Category(enc)
  IN [i \in 1..c[2] |-> LET p == c[1] + (3 * (i - 1)) IN <<area[p], area[p + 1], area[p + 2]>>]
Rate(area, enc) == area[Category(enc)[3]]

\* the games' odds in percent, per slot
Odds(enc) ==
  CASE enc \in {RockSmash, Surfing} -> <<60, 30, 5, 4, 1>>
    [] enc = OldRod -> <<70, 30>>
    [] enc = GoodRod -> <<60, 20, 20>>
    [] enc = SuperRod -> <<40, 40, 15, 4, 1>>
    [] OTHER -> <<20, 20, 10, 10, 10, 10, 5, 5, 4, 4, 1, 1>>
Below(odds, k) == FoldLeft(LAMBDA acc, i : acc + odds[i], 0, Range0(k))
\* the slot whose share of 0..99 contains v
SlotNumber(enc, v) ==
  LET o == Odds(enc) IN CHOOSE k \in 1..Len(o) : Below(o, k - 1) <= v /\ v < Below(o, k)

\* Leads
CuteCharmM == 26  MagnetPull == 27  StaticLead == 28  PressureLead == 32  NoLead == 255
\* steel, electric, grass (Harvest), fire (Flash Fire), water (Storm Drain); only the first two act on encounters of generation 3
Attracts(lead) == CASE lead = MagnetPull -> 8 [] lead = StaticLead -> 12 [] lead = 29 -> 11 [] lead = 30 -> 9 [] lead = 31 -> 10 [] OTHER -> 99

\* Personal records (28 bytes)
TableOf(game) == CASE game \in {1, 2} -> "rs" [] game = 4 -> "e" [] game = 8 -> "fr" [] OTHER -> "lg"
Info(game, species) == Data.personal[TableOf(game)][species + 1]
BaseHp(i) == i[1]  BaseAtk(i) == i[2]  BaseDef(i) == i[3]  BaseSpe(i) == i[4]  BaseSpA(i) == i[5]  BaseSpD(i) == i[6]
Types(i) == {i[7], i[8]}
GenderRatio(i) == i[17]
Ability(i, n) == i[23 + n]

------------------------------------------------------------------------------
\* One Pokemon: attributes that follow from PID, IVs, level and species
Gender(pid, ratio) ==
  CASE ratio = 255 -> 2 [] ratio = 254 -> 1 [] ratio = 0 -> 0
    [] OTHER -> IF And32(pid, 255) < ratio THEN 1 ELSE 0
Shiny(pid, tsv) ==
  LET d == Xor32(Xor32(Hi16(pid), Lo16(pid)), tsv) IN IF d = 0 THEN 2 ELSE IF d < 8 THEN 1 ELSE 0
NatureOf(pid) == Mod32(pid, 25)

\* stats in order HP, attack, defense, special attack, special defense, speed;
\* natures number their stats attack, defense, speed, special attack, special defense
NatureKey(i) == CASE i = 2 -> 0 [] i = 3 -> 1 [] i = 4 -> 3 [] i = 5 -> 4 [] i = 6 -> 2
NatureStat(stat, nature, i) ==
  LET up == nature \div 5 = NatureKey(i)
      down == nature % 5 = NatureKey(i)
      pct == IF up = down THEN 100 ELSE IF up THEN 110 ELSE 90
  IN (stat * pct) \div 100
Stats(info, ivs, level, nature) ==
  LET base == <<BaseHp(info), BaseAtk(info), BaseDef(info), BaseSpA(info), BaseSpD(info), BaseSpe(info)>>
      raw(i) == (((2 * base[i]) + ivs[i]) * level) \div 100
  IN [i \in 1..6 |-> IF i = 1 THEN raw(1) + level + 10 ELSE NatureStat(raw(i) + 5, nature, i)]

\* IVs in the games' internal order: HP, attack, defense, speed, special attack, special defense
Internal(ivs) == <<ivs[1], ivs[2], ivs[3], ivs[6], ivs[4], ivs[5]>>
BitSum(ivs, b) == FoldLeft(LAMBDA acc, i : acc + (((Internal(ivs)[i] \div (2^b)) % 2) * (2^(i - 1))), 0, Range0(6))
HiddenPower(ivs) == (BitSum(ivs, 0) * 15) \div 63
HiddenPowerStrength(ivs) == 30 + ((BitSum(ivs, 1) * 40) \div 63)
\* the highest IV, ties broken from PID % 6 on
Characteristic(pid, ivs) ==
  LET v == Internal(ivs)
      start == Mod32(pid, 6)
      at(k) == ((start + k) % 6) + 1
      best == CHOOSE k \in 0..5 : /\ \A j \in 0..5 : v[at(j)] <= v[at(k)]
                                  /\ \A j \in 0..(k - 1) : v[at(j)] < v[at(k)]
  IN (5 * (at(best) - 1)) + (v[at(best)] % 5)

\* advance, PID, species, form, IVs, ability slot, ability, level, shininess,
\* stats, gender, nature, hidden power type and strength, characteristic
State(adv, pid, species, form, ivs, abilityBit, level, shiny, info) ==
  <<adv, pid, species, form>> \o ivs
  \o <<abilityBit, Ability(info, IF abilityBit = 0 THEN 0 ELSE 1), level, shiny>>
  \o Stats(info, ivs, level, NatureOf(pid))
  \o <<Gender(pid, GenderRatio(info)), NatureOf(pid), HiddenPower(ivs), HiddenPowerStrength(ivs), Characteristic(pid, ivs)>>

\* text rendering of a state
RECURSIVE Dec(_)
Dec(n) == LET q == Div32(n, 10) IN (IF q = 0 THEN <<>> ELSE Dec(q)) \o <<48 + Mod32(n, 10)>>
Hex(n) == [i \in 1..8 |-> LET d == And32(Shr32(n, 32 - (4 * i)), 15) IN IF d < 10 THEN 48 + d ELSE 55 + d]
Slash == Codes("/")
Six(v) == FoldLeft(LAMBDA acc, i : acc \o Slash \o Dec(v[i]), Dec(v[1]), <<2, 3, 4, 5, 6>>)
Paren(t) == Codes(" (") \o t \o Codes(")")
Fields(st) ==
  LET sp == Data.species[st[3] + 1]
      form == IF st[4] = 0 THEN <<>> ELSE Codes("-") \o Dec(st[4])
      ivs == SubSeq(st, 5, 10)
      stats == SubSeq(st, 15, 20)
  IN << Dec(st[1]), sp \o form, Dec(st[13]), Hex(st[2]), Data.natures[st[22] + 1],
        Data.abilities[st[12] + 1] \o Paren(Dec(st[11])), Six(ivs), Six(stats),
        Data.types[st[23] + 2] \o Paren(Dec(st[24])), <<CASE st[21] = 0 -> 9794 [] st[21] = 1 -> 9792 [] OTHER -> 45>> >>
Heads == << Codes("Advance"), Codes("Species"), Codes("Level"), Codes("PID"), Codes("Nature"), Codes("Ability"),
            Codes("IVs"), Codes("Stats"), Codes("HP"), Codes("Gender") >>
\* every field followed by a zero, and the one-line form
Csv(st) == LET f == Fields(st) IN FoldLeft(LAMBDA acc, i : acc \o Heads[i] \o <<0>> \o f[i] \o <<0>>, <<>>, Range0(10))
Line(st) ==
  LET f == Fields(st)
  IN FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE Codes(", ")) \o Heads[i] \o Codes(": ") \o f[i], <<>>, Range0(10))

------------------------------------------------------------------------------
\* One encounter
RSE(game) == game \in {1, 2, 4}
SafariZone(game, location) ==
  \/ game \in {1, 2} /\ location \in {89, 90, 91, 92, 186, 187, 188, 189}
  \/ game = 4 /\ location \in {20, 72, 73, 74, 97, 98}

\* a level in the slot's range, by remainder; with pressure half the time the maximum,
\* otherwise one below the drawn one
Level(slot, s, pressure) ==
  LET s1 == Adv(s)
      k == Draw(s1, slot[2] - slot[1] + 1)
      s2 == Adv(s1)
  IN IF ~pressure THEN <<slot[1] + k, s1>>
     ELSE IF Draw(s2, 2) = 0 THEN <<slot[2], s2>>
     ELSE <<slot[1] + (IF k = 0 THEN 0 ELSE k - 1), s2>>

\* the slot: type-attracting leads first, then the hundred-sided draw
PlainSlot(area, enc, s) == LET s1 == Adv(s) IN <<Slots(area, enc)[SlotNumber(enc, Draw(s1, 100))], s1>>
Attracted(game, lead, area, enc) == SelectSeq(Slots(area, enc), LAMBDA x : Attracts(lead) \in Types(Info(game, And32(x[3], 1023))))
ChooseSlot(g, area, s) ==
  LET attracted == Attracted(g.game, g.lead, area, g.enc)
      s1 == Adv(s)
      s2 == Adv(s1)
  IN IF g.lead \in {MagnetPull, StaticLead}
     THEN IF Draw(s1, 2) = 0 /\ attracted # <<>>
          THEN <<attracted[Draw(s2, Len(attracted)) + 1], s2>>
          ELSE PlainSlot(area, g.enc, s1)
     ELSE PlainSlot(area, g.enc, s)

\* the encounter from seed s, reported for advance adv
Encounter(g, area, adv, s) ==
  LET a == TLCEval(ChooseSlot(g, area, s))
      slot == a[1]
      species == And32(slot[3], 2047)
      form == slot[3] \div 2048
      b == TLCEval(Level(slot, a[2], g.lead = PressureLead))
      info == Info(g.game, species)
      ratio == GenderRatio(info)
      asks == g.lead \in {CuteCharmF, CuteCharmM} /\ 0 < ratio /\ ratio < 254
      c == IF asks THEN Adv(b[2]) ELSE b[2]
      charm == asks /\ Draw(c, 3) # 0
      d == IF SafariZone(g.game, area[1]) THEN Adv(c) ELSE c
      e1 == Adv(d)
      e2 == Adv(e1)
      nat == IF g.lead < 25
             THEN IF Draw(e1, 2) = 0 THEN <<g.lead, e1>> ELSE <<Draw(e2, 25), e2>>
             ELSE <<Draw(e1, 25), e1>>
      p == TLCEval(FindPid(nat[2], nat[1], charm, g.lead, ratio, species, form))
      s1 == Adv(IF g.method = 3 THEN Adv(p[2]) ELSE p[2])        \* method 2: a draw before the IVs
      s2 == Adv(IF g.method = 4 THEN Adv(s1) ELSE s1)            \* method 4: a draw between the IVs
      low(v) == And32(v, 31)
      ivs == << low(Val(s1)), low(Shr32(Val(s1), 5)), low(Shr32(Val(s1), 10)),
                low(Shr32(Val(s2), 5)), low(Shr32(Val(s2), 10)), low(Val(s2)) >>
  IN State(adv, p[1], species, form, ivs, And32(p[1], 1), b[1], Shiny(p[1], g.tsv), info)

\* rock smash in Ruby, Sapphire and Emerald first asks whether anything appears
Smash(g, area, s) ==
  IF RSE(g.game) /\ g.enc = RockSmash
  THEN LET s1 == Adv(s) IN <<Draw(s1, 2880) < 16 * Rate(area, g.enc), s1>>
  ELSE <<TRUE, s>>

\* the encounters of the advances from, from + 1, ..., from + count - 1
Generate(g, seed, delay, from, count, area) ==
  FoldLeft(LAMBDA acc, i :
             LET t == Smash(g, area, acc[1])
             IN TLCEval(<<Adv(acc[1]),
                          IF t[1] THEN acc[2] \o Encounter(g, area, Add32(from, i - 1), t[2]) ELSE acc[2]>>),
           <<L32!Jump(PokeGen, seed, Add32(delay, from)), <<>>>>, Range0(count))[2]

------------------------------------------------------------------------------
\* objects and calls
NewGen3(c, a) ==
  [cls |-> "GEN3", method |-> c.method, enc |-> c.enc, game |-> c.game,
   lead |-> IF c.game = 4 THEN c.lead ELSE NoLead,               \* leads work in Emerald only
   tsv |-> Xor32(a[1][1], a[2][1])]
Gen3Do(ob, op, a) ==
  \* "within": by a generator that user code makes; "lent": by this one in the hands of user code
  CASE op \in {"gen", "within", "lent"} -> <<ob, Generate(ob, a[1][1], a[2][1], a[3][1], a[4][1], a[5])>>
    [] OTHER -> <<ob, Unknown>>

\* a state built directly: game, advance, PID, species, form, IVs, ability slot, level, shininess
NewState3(c, a) ==
  LET sp == a[3][1]
  IN [cls |-> "STATE3", st |-> State(a[1][1], a[2][1], sp, a[4][1], a[5], a[6][1], a[7][1], a[8][1], Info(c.game, sp))]
State3Do(ob, op, a) ==
  CASE op = "attrs" -> <<ob, ob.st>>
    [] op = "csv" -> <<ob, Csv(ob.st)>>
    [] op = "line" -> <<ob, Line(ob.st)>>
    [] OTHER -> <<ob, Unknown>>

\* single steps, from given seeds; the seed afterwards is part of the result
Swept(f(_), count, start, delta) ==
  FoldLeft(LAMBDA acc, i : acc \o f(Add32(start, Mul32(delta, i - 1))), <<>>, Range0(count))
Gen3Util(op, a) ==
  CASE op = "gender" -> <<Gender(a[1][1], a[2][1])>>
    [] op = "shiny" -> <<Shiny(a[1][1], a[2][1])>>
    [] op = "unown" -> <<Bit(Letter(a[1][1]) = a[2][1])>>
    \* every nature and stat for one value
    [] op = "stat" -> [n \in 1..125 |-> NatureStat(a[1][1], (n - 1) \div 5, ((n - 1) % 5) + 2)]
    [] op = "rate" -> <<Rate(a[1], a[2][1])>>
    [] op = "safari" -> <<Bit(SafariZone(a[2][1], a[1][1]))>>
    [] op = "slots" ->
         LET f(s) == LET r == PlainSlot(a[5], a[4][1], s) IN r[1] \o <<r[2]>>
         IN Swept(f, a[1][1], a[2][1], a[3][1])
    [] op = "attracted" -> FlattenSeq(Attracted(a[3][1], a[2][1], a[4], a[1][1]))
    [] op = "leads" ->
         LET f(s) == LET r == ChooseSlot([game |-> a[6][1], lead |-> a[5][1], enc |-> a[4][1]], a[7], s) IN r[1] \o <<r[2]>>
         IN Swept(f, a[1][1], a[2][1], a[3][1])
    [] op = "levels" ->
         LET f(s) == Level(<<a[4][1], a[5][1], 0>>, s, a[6][1] = 1) IN Swept(f, a[1][1], a[2][1], a[3][1])
    [] OTHER -> Unknown
=============================================================================
