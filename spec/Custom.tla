------------------------------- MODULE Custom -------------------------------
(***************************************************************************)
(* The names the package gives to cases, and user code written with its    *)
(* compilation helpers.                                                    *)
(***************************************************************************)
EXTENDS Words, SequencesExt, FiniteSets

Nothing == <<>>
Impossible == <<0, 0, 0, 0, 0, 0, 0>>

------------------------------------------------------------------------------
\* Enumerations: every name is a case of its own, but for the synonyms
Natures25 == <<"HARDY", "LONELY", "BRAVE", "ADAMANT", "NAUGHTY", "BOLD", "DOCILE", "RELAXED", "IMPISH", "LAX", "TIMID", "HASTY",
               "SERIOUS", "JOLLY", "NAIVE", "MODEST", "MILD", "QUIET", "BASHFUL", "RASH", "CALM", "GENTLE", "SASSY", "CAREFUL", "QUIRKY">>
Cases(enum) ==
  CASE enum = "DSType" -> <<"DS", "DSI", "DS3">>
    [] enum = "Language" -> <<"ENGLISH", "FRENCH", "GERMAN", "ITALIAN", "JAPANESE", "KOREAN", "SPANISH">>
    [] enum = "LAArea" -> <<"JUBILIFE_VILLAGE", "OBSIDIAN_FIELDLANDS", "CRIMSON_MIRELANDS", "COBALT_COASTLANDS", "CORONET_HIGHLANDS",
                            "ALABASTER_ICELANDS", "ANCIENT_RETREAT">>
    [] enum = "LATime" -> <<"DAWN", "DAY", "DUSK", "NIGHT">>
    [] enum = "LAWeather" -> <<"NONE", "SUNNY", "CLOUDY", "RAIN", "SNOW", "DROUGHT", "FOG", "RAINSTORM", "SNOWSTORM">>
    [] enum = "Encounter" -> <<"GRASS", "DOUBLE_GRASS", "SPECIAL_GRASS", "ROCK_SMASH", "SURFING", "SPECIAL_SURF", "OLD_ROD", "GOOD_ROD",
                               "SUPER_ROD", "SPECIAL_SUPER_ROD", "STATIC", "BUG_CATCHING_CONTEST", "HEADBUTT", "HEADBUTT_ALT",
                               "HEADBUTT_SPECIAL", "ROAMER", "GIFT", "ENTRALINK", "GIFT_EGG", "HIDDEN_GROTTO">>
    [] enum = "Method" -> <<"NONE", "METHOD_1", "METHOD_1_REVERSE", "METHOD_2", "METHOD_4", "XD_COLO", "CHANNEL", "EBRED", "EBRED_SPLIT",
                            "EBRED_ALTERNATE", "EBRED_PID", "RSFRLGBRED", "RSFRLGBRED_SPLIT", "RSFRLGBRED_ALTERNATE", "RSFRLGBRED_MIXED",
                            "CUTE_CHARM_DPPT", "CUTE_CHARM_HGSS", "METHOD_J", "METHOD_K", "POKERADAR", "WONDERCARD_IVS", "METHOD_5_IVS",
                            "METHOD_5_CGEAR", "METHOD_5">>
    [] enum = "Lead" -> [i \in 1..25 |-> "SYNCHRONIZE_" \o Natures25[i]]
                        \o <<"NONE", "CUTE_CHARM_F", "CUTE_CHARM_M", "MAGNET_PULL", "STATIC", "HARVEST", "FLASH_FIRE", "STORM_DRAIN",
                             "PRESSURE", "SUCTION_CUPS", "COMPOUND_EYES", "ARENA_TRAP",
                             "HUSTLE", "VITAL_SPIRIT", "STICKY_HOLD", "SUPER_LUCK", "ILLUMINATE", "NO_GUARD">>
\* names of one ability in the field, by number in Cases
Same(enum, i, j) ==
  LET groups == IF enum = "Lead" THEN {{"PRESSURE", "HUSTLE", "VITAL_SPIRIT"}, {"SUCTION_CUPS", "STICKY_HOLD"},
                                       {"COMPOUND_EYES", "SUPER_LUCK"}, {"ARENA_TRAP", "ILLUMINATE", "NO_GUARD"}} ELSE {}
  IN i = j \/ \E grp \in groups : {Cases(enum)[i], Cases(enum)[j]} \subseteq grp
\* where the shipped data or a documented number refers to a case, its number is fixed: the first k count from 0
Fixed(enum) == CASE enum \in {"LAArea", "LATime", "LAWeather"} -> Len(Cases(enum)) [] enum = "Lead" -> 25 [] OTHER -> 0

EnumDo(ob, op, a, r) ==
  CASE op = "values" /\ ob.names = Cases(ob.enum) ->
         LET n == Len(ob.names)
         IN <<ob, IF /\ Len(r) = n
                     /\ \A i, j \in 1..n : (r[i] = r[j]) <=> Same(ob.enum, i, j)
                     /\ \A i \in 1..Fixed(ob.enum) : r[i] = i - 1
                  THEN r ELSE Impossible>>
    [] OTHER -> <<ob, Impossible>>

------------------------------------------------------------------------------
\* A user's class: a 32-bit total, a 64-bit product, four 16-bit counters and the counter last
\* touched; and a second class that owns one of the first and steps it
Low16(x) == And32(x, 65535)
NewTally(a) == [cls |-> "TALLY", total |-> a[1][1], prod |-> One64, seen |-> <<0, 0, 0, 0>>]
Touch(ob, k) ==
  LET t == Add32(ob.total, k)
      i == And32(t, 3) + 1
  IN [ob EXCEPT !.total = t, !.prod = Mul64(@, <<0, Or32(k, 1)>>), !.seen[i] = Low16(@ + 1)]
TallyDo(ob, op, a) ==
  CASE op = "add" -> LET n == Touch(ob, a[1][1]) IN <<n, <<n.total>>>>
    [] op = "many" -> LET n == FoldLeft(LAMBDA acc, i : Touch(acc, a[2][1]), ob, [i \in 1..a[1][1] |-> i]) IN <<n, <<n.total>>>>
    [] op = "prod" -> <<ob, ob.prod>>
    [] op = "seen" -> <<ob, ob.seen>>
    \* through the owner
    [] op = "twice" -> LET n == Touch(Touch(ob, a[1][1]), a[1][1]) IN <<n, <<n.total>>>>
    [] OTHER -> <<ob, Impossible>>

\* a user's functions: mix of two words, sum and difference, a step of a user's object
Mix(x, y) == Xor32(Rotl32(Add32(x, Mul32(y, 1812433253)), 7), y)
\* arrays in rows, in columns, with gaps; writable or not; and their dimensions
Arrays == <<<<"arrayC1", 1>>, <<"arrayA1", 1>>, <<"arrayC2", 2>>, <<"arrayF2", 2>>, <<"arrayA2", 2>>, <<"arrayC3", 3>>, <<"arrayF3", 3>>, <<"arrayA3", 3>>,
            <<"fixedC1", 1>>, <<"fixedA1", 1>>, <<"fixedC2", 2>>, <<"fixedF2", 2>>, <<"fixedA2", 2>>, <<"fixedC3", 3>>, <<"fixedF3", 3>>, <<"fixedA3", 3>>>>
FunctionDo(op, a) ==
  CASE op \in {"bare", "called", "signed", "locals", "inlined"} -> <<Mix(a[1][1], a[2][1])>>
    [] op \in {"narrow", "both", "given"} -> <<Shr32(Add32(a[1][1], a[2][1]), 1)>>
    [] op = "pair" -> <<Add32(a[1][1], a[2][1]), Sub32(a[1][1], a[2][1])>>
    [] op = "nothing" -> Nothing
    [] op = "single" -> <<Add32(a[1][1], a[2][1])>>
    [] op = "parts" -> LET v == Xor32(a[1][1], a[2][1])
                       IN [i \in 1..4 |-> And32(Shr32(v, 8 * (i - 1)), 255)]
    [] op = "product" -> MulWide(a[1][1], a[2][1])
    [] op = "below" -> <<IF Lt64(<<0, a[1][1]>>, <<0, a[2][1]>>) THEN 1 ELSE 0>>
    [] op \in {"given_array", "filled"} -> <<a[1][1], a[2][1], Add32(a[1][1], a[2][1])>>
    \* two steps of a user's object
    [] op = "step" -> <<Add32(a[1][1], Add32(a[2][1], a[2][1]))>>
    \* the hexadecimal digits of the first word folded into the second
    [] op = "text" ->
         LET digits == [i \in 1..8 |-> And32(Shr32(a[1][1], 32 - (4 * i)), 15)]
             from == IF \A i \in 1..8 : digits[i] = 0 THEN 8
                     ELSE CHOOSE i \in 1..8 : digits[i] # 0 /\ \A j \in 1..(i - 1) : digits[j] = 0
         IN <<FoldLeft(LAMBDA acc, v : Xor32(Rotl32(acc, 1), v + (IF v < 10 THEN 48 ELSE 87)), a[2][1], SubSeq(digits, from, 8))>>
    \* the words x, x + y, x + 2y, ... of an array, in the order of its indices
    [] \E i \in 1..Len(Arrays) : Arrays[i][1] = op ->
         LET n == Arrays[CHOOSE i \in 1..Len(Arrays) : Arrays[i][1] = op][2]
         IN <<FoldLeft(LAMBDA acc, i : Xor32(Rotl32(acc, 1), Add32(a[1][1], Mul32(i - 1, a[2][1]))), 0, [i \in 1..(2 ^ n) |-> i])>>
    [] OTHER -> Impossible

\* typed containers: of words of any width, or of a user's objects ("CELL": a word that can be raised)
NewStore(c) == [cls |-> "STORE", val |-> c.val, dict |-> <<>>, list |-> <<>>]
StoreDo(ob, op, a) ==
  LET at == IF a = <<>> THEN {} ELSE {i \in 1..Len(ob.dict) : ob.dict[i][1] = a[1]}
      i == CHOOSE i \in at : TRUE
      \* positions from the end are negative
      n == Len(ob.list)
      place == IF a[1][1] < 0 THEN n + a[1][1] + 1 ELSE a[1][1] + 1
      within == place \in 1..n
  IN CASE op = "put" -> <<IF at = {} THEN [ob EXCEPT !.dict = Append(@, <<a[1], a[2]>>)]
                          ELSE [ob EXCEPT !.dict[i] = <<a[1], a[2]>>], Nothing>>
       \* "look": from compiled code
       [] op \in {"has", "look"} -> <<ob, IF at = {} THEN <<0>> ELSE <<1>> \o ob.dict[i][2]>>
       [] op = "drop" -> <<IF at = {} THEN ob ELSE [ob EXCEPT !.dict = RemoveAt(@, i)], IF at = {} THEN <<0>> ELSE <<1>>>>
       [] op = "raise" -> <<IF at = {} THEN ob ELSE [ob EXCEPT !.dict[i] = <<a[1], <<Add32(@[2][1], a[2][1])>>>>],
                            IF at = {} THEN <<0>> ELSE <<1>>>>
       \* in the order in which they came
       [] op = "keys" -> <<ob, FlattenSeq([j \in 1..Len(ob.dict) |-> ob.dict[j][1]])>>
       [] op = "items" -> <<ob, FlattenSeq([j \in 1..Len(ob.dict) |-> ob.dict[j][1] \o ob.dict[j][2]])>>
       [] op = "push" -> <<[ob EXCEPT !.list = Append(@, a[1])], Nothing>>
       \* "pick": from compiled code
       [] op \in {"at", "pick"} -> <<ob, IF within THEN ob.list[place] ELSE Impossible>>
       [] op = "set" -> <<IF within THEN [ob EXCEPT !.list[place] = a[2]] ELSE ob, IF within THEN Nothing ELSE Impossible>>
       [] op = "squeeze" -> <<IF within THEN [ob EXCEPT !.list = InsertAt(@, place, a[2])] ELSE ob, IF within THEN Nothing ELSE Impossible>>
       [] op = "popped" -> <<IF within THEN [ob EXCEPT !.list = RemoveAt(@, place)] ELSE ob, IF within THEN ob.list[place] ELSE Impossible>>
       [] op = "list" -> <<ob, FlattenSeq(ob.list)>>
       [] op = "sizes" -> <<ob, <<Len(ob.dict), Len(ob.list)>>>>
       [] OTHER -> <<ob, Impossible>>
=============================================================================
