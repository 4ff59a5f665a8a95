------------------------------ MODULE Tables3 -------------------------------
(***************************************************************************)
(* The encounter tables of the Gen 3 games, from the shipped JSON trees    *)
(* (Data.encounters), and the clean-up of map names.                       *)
(* Texts are sequences of code points.                                     *)
(***************************************************************************)
EXTENDS Gen3, FiniteSets

Holds(t, p) == \E k \in 0..(Len(t) - Len(p)) : SubSeq(t, k + 1, k + Len(p)) = p
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Digit(c) == 48 <= c /\ c <= 57
UpperOf(c) == IF 97 <= c /\ c <= 122 THEN c - 32 ELSE IF c = 233 THEN 201 ELSE c
LowerOf(c) == IF 65 <= c /\ c <= 90 THEN c + 32 ELSE c
Upper(t) == [i \in 1..Len(t) |-> UpperOf(t[i])]
Lower(t) == [i \in 1..Len(t) |-> LowerOf(t[i])]

------------------------------------------------------------------------------
\* the entries of a game
Group(game) == CASE game \in {1, 2} -> Data.encounters.rs [] game = 4 -> Data.encounters.e [] OTHER -> Data.encounters.frlg
Tag(game) == CASE game = 1 -> Codes("Ruby") [] game = 2 -> Codes("Sapphire") [] game = 8 -> Codes("FireRed")
               [] game = 16 -> Codes("LeafGreen") [] OTHER -> <<>>          \* every Emerald entry counts
EntriesOf(game) == SelectSeq(Group(game), LAMBDA e : Holds(e.base_label, Tag(game)))
\* evaluated once per game
Table == IF Given("encounters") THEN [game \in {1, 2, 4, 8, 16} |-> EntriesOf(game)] ELSE <<>>

\* unused entries and the alternative Altering Cave sets
Alternative(t, before, after) ==
  \E k \in 0..(Len(t) - Len(before) - 1) :
     /\ SubSeq(t, k + 1, k + Len(before)) = before
     /\ t[k + Len(before) + 1] \in 50..57
     /\ after \/ k = 0
Blank(e) == \/ Holds(e.base_label, Codes("Unused"))
            \/ Alternative(e.base_label, Codes("gAlteringCave"), FALSE)
            \/ Alternative(e.base_label, Codes("AlteringCave_"), TRUE)

\* species numbers by constant-case name
ConstantName(k) ==
  CASE k = 29 -> Codes("SPECIES_NIDORAN_F") [] k = 32 -> Codes("SPECIES_NIDORAN_M")
    [] OTHER -> Codes("SPECIES_") \o Upper(Data.species[k + 1])
ConstantNames == IF Given("species") THEN [k \in 0..386 |-> ConstantName(k)] ELSE <<>>
SpeciesNumber == [t \in {ConstantNames[k] : k \in DOMAIN ConstantNames} |-> CHOOSE k \in 0..386 : ConstantNames[k] = t]

\* the Unown forms of the Tanoby chambers (A = 0, ..., Z = 25, ! = 26, ? = 27)
Chamber(name) == Codes("MAP_SEVEN_ISLAND_TANOBY_RUINS_") \o Codes(name) \o Codes("_CHAMBER")
Letters(map) ==
  CASE map = Chamber("MONEAN") -> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 27>>
    [] map = Chamber("LIPTOO") -> <<2, 2, 2, 3, 3, 3, 7, 7, 7, 20, 20, 14>>
    [] map = Chamber("WEEPTH") -> <<13, 13, 13, 13, 18, 18, 18, 18, 8, 8, 4, 4>>
    [] map = Chamber("DILFORD") -> <<15, 15, 11, 11, 9, 9, 17, 17, 17, 16, 16, 16>>
    [] map = Chamber("SCUFIB") -> <<24, 24, 19, 19, 6, 6, 6, 5, 5, 5, 10, 10>>
    [] map = Chamber("RIXY") -> <<21, 21, 21, 22, 22, 22, 23, 23, 12, 12, 1, 1>>
    [] map = Chamber("VIAPOIS") -> <<25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 25, 26>>
    [] OTHER -> [i \in 1..12 |-> 0]

Zeros(n) == [i \in 1..n |-> 0]
NoLetters == Zeros(12)
\* rate and slots of one category
Slots3(set, count, forms) ==
  <<set.encounter_rate>>
  \o [i \in 1..(3 * count) |->
        LET m == set.mons[((i - 1) \div 3) + 1]
        IN CASE i % 3 = 1 -> m.min_level [] i % 3 = 2 -> m.max_level
             [] OTHER -> SpeciesNumber[m.species] + (2048 * forms[((i - 1) \div 3) + 1])]
AreaOf(game, n) ==                        \* n counts from 0 and is the location number
  LET e == Table[game][n + 1]
      has(k) == k \in DOMAIN e
  IN IF Blank(e) THEN Zeros(101)
     ELSE <<n>>
          \o (IF has("land_mons") THEN Slots3(e.land_mons, 12, Letters(e.map)) ELSE Zeros(37))
          \o (IF has("water_mons") THEN Slots3(e.water_mons, 5, NoLetters) ELSE Zeros(16))
          \o (IF has("rock_smash_mons") THEN Slots3(e.rock_smash_mons, 5, NoLetters) ELSE Zeros(16))
          \o (IF has("fishing_mons") THEN Slots3(e.fishing_mons, 10, NoLetters) ELSE Zeros(31))

------------------------------------------------------------------------------
\* map names: MAP_ dropped, words separated by blanks and capitalised,
\* except routes, rooms and floors
RECURSIVE Without(_, _)
Without(t, p) ==
  IF Len(t) < Len(p) THEN t
  ELSE IF StartsWith(t, p) THEN Without(SubSeq(t, Len(p) + 1, Len(t)), p)
  ELSE <<t[1]>> \o Without(SubSeq(t, 2, Len(t)), p)
\* the words of a text, separated by underscores or blanks
WordsOf(t) ==
  LET cut == FoldLeft(LAMBDA acc, c : IF c \in {32, 95} THEN <<acc[1] \o (IF acc[2] = <<>> THEN <<>> ELSE <<acc[2]>>), <<>>>>
                                      ELSE <<acc[1], Append(acc[2], c)>>, <<<<>>, <<>>>>, t)
  IN cut[1] \o (IF cut[2] = <<>> THEN <<>> ELSE <<cut[2]>>)
\* how many digits start at position k
DigitsAt(t, k) == LET n == {j \in k..Len(t) : \A i \in k..j : Digit(t[i])} IN Cardinality(n)
\* digits after a prefix, and then the letter
Numbered(t, p) == StartsWith(Lower(t), p) /\ DigitsAt(t, Len(p) + 1) > 0
Floor(t, skip, letter) == LET n == DigitsAt(t, skip + 1) IN n > 0 /\ Len(t) > skip + n /\ t[skip + n + 1] = letter
NumberOf(t, skip) == SubSeq(t, skip + 1, skip + DigitsAt(t, skip + 1))
CleanWord(t) ==
  CASE Numbered(t, Codes("route")) -> Codes("Route ") \o NumberOf(t, 5)
    [] Numbered(t, Codes("room")) -> Codes("Room ") \o NumberOf(t, 4)
    [] t[1] = 66 /\ Floor(t, 1, 70) -> t                    \* B1F
    [] Floor(t, 0, 70) \/ Floor(t, 0, 82) -> t              \* 1F, 1R
    [] OTHER -> <<UpperOf(t[1])>> \o Lower(Tail(t))
CleanName(t) ==
  LET ws == WordsOf(Without(t, Codes("MAP_")))
  IN FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE <<32>>) \o CleanWord(ws[i]), <<>>, Range0(Len(ws)))
NameOf(game, n) == LET e == Table[game][n + 1] IN IF Blank(e) THEN <<>> ELSE CleanName(e.map)

\* all areas and names of a game in a few words (computed where asked for)
DigestOf == [game \in IF Given("digested") THEN DOMAIN Table ELSE {} |->
  LET n == Len(Table[game])
  IN <<n, n, FoldLeft(LAMBDA h, i : FoldLeft(LAMBDA g, x : Xor32(Rotl32(g, 5), x), h, AreaOf(game, i - 1)), 0, Range0(n)),
       FoldLeft(LAMBDA h, i : FoldLeft(LAMBDA g, x : Xor32(Rotl32(g, 5), x), h, Append(NameOf(game, i - 1), 0)), 0, Range0(n))>>]

------------------------------------------------------------------------------
Tables3Do(ob, op, a) ==
  CASE op = "count" -> <<ob, <<Len(Table[ob.game]), Len(Table[ob.game])>>>>
    [] op = "area" -> <<ob, AreaOf(ob.game, a[1][1])>>
    [] op = "name" -> <<ob, NameOf(ob.game, a[1][1])>>
    [] op = "digest" -> <<ob, DigestOf[ob.game]>>
    [] op = "fs" -> <<ob, NoResult>>        \* whatever happens to the cache file changes nothing
    [] op = "clean" -> <<ob, CleanName(a[1])>>
    [] OTHER -> <<ob, Unknown>>
=============================================================================
