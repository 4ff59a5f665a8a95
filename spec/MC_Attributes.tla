--------------------------- MODULE MC_Attributes ----------------------------
(***************************************************************************)
(* Attributes of a Gen 3 state stay in the games' ranges, natures change   *)
(* two stats or none, and the forms of Unown, genders and shininess divide *)
(* the PIDs as they should.                                                *)
(***************************************************************************)
EXTENDS Gen3

VARIABLES ivs, pid
vars == <<ivs, pid>>
Corner == {0, 3, 30, 31}
Init == ivs = <<>> /\ pid = 0
Next == \/ pid = 0 /\ Len(ivs) < 6 /\ (\E v \in Corner : ivs' = Append(ivs, v)) /\ UNCHANGED pid
        \/ Len(ivs) = 0 /\ pid < 300 /\ pid' = pid + 1 /\ UNCHANGED ivs
Spec == Init /\ [][Next]_vars

Full == Len(ivs) = 6
Power == Full => HiddenPower(ivs) \in 0..15 /\ HiddenPowerStrength(ivs) \in 30..70
Best(p) == LET v == Internal(ivs) IN v[(Characteristic(p, ivs) \div 5) + 1]
Char == Full => \A p \in {0, 1, 2, 3, 4, 5, 6, -1, -2, -3} :
          /\ Characteristic(p, ivs) \in 0..29
          /\ \A i \in 1..6 : ivs[i] <= Best(p)
          /\ Characteristic(p, ivs) % 5 = Best(p) % 5
\* a species with base stats of 1, 50 and 255
Info0 == [i \in 1..28 |-> CASE i <= 2 -> 255 [] i <= 4 -> 1 [] OTHER -> 50]
InStats == Full => \A level \in {1, 50, 100}, nature \in {0, 5, 24} :
          LET s == Stats(Info0, ivs, level, nature)
          IN \A i \in 1..6 : s[i] \in 4..780 /\ (i > 1 => s[i] <= Stats(Info0, [ivs EXCEPT ![i] = 31], level, nature)[i])
\* natures: five leave all stats, the others raise one and lower one
Natures == ~Full => \A n \in 0..24 :
          LET ups == {i \in 2..6 : NatureStat(100, n, i) = 110}
              downs == {i \in 2..6 : NatureStat(100, n, i) = 90}
          IN IF n % 6 = 0 THEN ups = {} /\ downs = {} ELSE Cardinality(ups) = 1 /\ Cardinality(downs) = 1 /\ ups # downs
Sorts == ivs = <<>> =>
          /\ \A ratio \in {0, 31, 63, 127, 191, 225, 254, 255} : Gender(pid, ratio) = Gender(pid + 256, ratio)
          /\ Letter(pid) \in 0..27
          /\ Shiny(pid, pid) = 2
          /\ Shiny(pid, Xor32(pid, 7)) = 1 /\ Shiny(pid, Xor32(pid, 8)) = 0
=============================================================================
