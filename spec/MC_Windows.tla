----------------------------- MODULE MC_Windows -----------------------------
(***************************************************************************)
(* Encounters do not depend on how a window of advances is cut, and moving *)
(* the delay moves the window: for every kind of generator, seed and cut.  *)
(***************************************************************************)
EXTENDS Gen3

CONSTANT Games
VARIABLES g, seed, cut
vars == <<g, seed, cut>>

Size == 3
Lists == {<<3, 12>>, <<40, 5>>, <<56, 5>>, <<72, 10>>}      \* first position and number of slots
Rates == {2, 39, 55, 71}
Area(location) ==
  [p \in 1..101 |->
    IF p = 1 THEN location ELSE IF p \in Rates THEN 20
    ELSE LET l == CHOOSE x \in Lists : x[1] <= p /\ p < x[1] + (3 * x[2])
             n == (p - l[1]) \div 3
         IN CASE (p - l[1]) % 3 = 0 -> 5 + n [] (p - l[1]) % 3 = 1 -> 9 + (2 * n)
              [] OTHER -> <<81, 25, 113, 1, 128, 100, 29, 32, 208, 227, 74, 66>>[n + 1]]
Seeds == {0, -1, 305419896}
Leads == {NoLead, 3, 24, CuteCharmF, CuteCharmM, MagnetPull, StaticLead, PressureLead}
Init == /\ \E game \in Games, enc \in {0, RockSmash, SuperRod}, lead \in Leads, method \in {1, 3, 4} :
             g = NewGen3([game |-> game, enc |-> enc, lead |-> lead, method |-> method], <<<<7>>, <<9>>>>)
        /\ seed \in Seeds /\ cut = 0
Next == cut < Size /\ cut' = cut + 1 /\ UNCHANGED <<g, seed>>
Spec == Init /\ [][Next]_vars

Location == IF g.game = 4 /\ g.enc = 0 THEN 20 ELSE 5          \* once in a safari zone
Gen(delay, from, count) == Generate(g, seed, delay, from, count, Area(Location))
Cut == Gen(-2, 1, Size) = Gen(-2, 1, cut) \o Gen(-2, 1 + cut, Size - cut)
\* a longer delay is a later advance, but for the number reported
Unnumbered(r) == [i \in 1..Len(r) |-> IF i % 25 = 1 THEN 0 ELSE r[i]]
Delayed == Unnumbered(Gen(cut, 5, 1)) = Unnumbered(Gen(0, 5 + cut, 1))
Shape == LET r == Gen(0, 0, 1)
         IN /\ Len(r) \in {0, 25}
            /\ Len(r) = 0 => g.enc = RockSmash /\ RSE(g.game)
            \* gender, nature and shininess are those of the PID
            /\ Len(r) = 25 => r[22] = NatureOf(r[2]) /\ r[11] = And32(r[2], 1)
            \* the lead's wish
            /\ Len(r) = 25 => \A i \in 5..10 : r[i] \in 0..31
=============================================================================
