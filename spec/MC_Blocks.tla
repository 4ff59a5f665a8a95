----------------------------- MODULE MC_Blocks ------------------------------
(***************************************************************************)
(* Many blocks at once (evaluated natively) are that many blocks one after *)
(* another (evaluated from the definition of Twister), and skipping with   *)
(* powers of a step is stepping.                                           *)
(***************************************************************************)
EXTENDS Skips

CONSTANT Most
VARIABLES seed, n, mt, sf, lin
vars == <<seed, n, mt, sf, lin>>
Seeds == {0, 1, -1, 19650218, 305419896}
Start(s) == [XS |-> <<s, 1, 2, 3>>, XO |-> <<<<s, 5>>, XoDefault1>>, TINY |-> TinySeed(s)]
One(f, v) == CASE f = "XS" -> XsStep(v) [] f = "XO" -> XoStep(v) [] OTHER -> TinyStep(v)
Init == seed \in Seeds /\ n = 0 /\ mt = MtSeed(seed) /\ sf = SfmtSeed(seed) /\ lin = Start(seed)
Next == /\ n < Most
        /\ n' = n + 1 /\ seed' = seed
        /\ mt' = Mt!NextBlock(mt) /\ sf' = Sf!NextBlock(sf)
        /\ lin' = [f \in DOMAIN lin |-> One(f, lin[f])]
Spec == Init /\ [][Next]_vars
View == <<seed, n>>

Native == MtBlocks(MtSeed(seed), n) = mt /\ SfBlocks(SfmtSeed(seed), n) = sf
Linear == \A f \in DOMAIN lin : SkipLinear(f, Start(seed)[f], <<0, n>>) = lin[f]
=============================================================================
