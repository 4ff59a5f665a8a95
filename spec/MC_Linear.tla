----------------------------- MODULE MC_Linear ------------------------------
(***************************************************************************)
(* The steps of Xorshift128, Xoroshiro128+ and TinyMT are linear over bits.*)
(* All 128 basis vectors, their pairs and zero are visited; with linearity *)
(* the invariant Undone for them holds for every 128-bit state.            *)
(***************************************************************************)
EXTENDS Prngs

VARIABLES fam, i, j
vars == <<fam, i, j>>

Word(k) == IF k = 31 THEN -2147483647 - 1 ELSE 2^k
\* basis vectors; number 128 is zero
Four(n) == [x \in 1..4 |-> IF n \div 32 = x - 1 THEN Word(n % 32) ELSE 0]
Two(v) == <<<<v[1], v[2]>>, <<v[3], v[4]>>>>
Flat(v) == v[1] \o v[2]
Basis(n) == IF fam = "XO" THEN Two(Four(n)) ELSE Four(n)
Plus(a, b) == IF fam = "XO" THEN <<Xor64(a[1], b[1]), Xor64(a[2], b[2])>> ELSE [x \in 1..4 |-> Xor32(a[x], b[x])]
Fwd(v) == CASE fam = "XO" -> XoStep(v) [] fam = "XS" -> XsStep(v) [] OTHER -> TinyStep(v)
Bwd(v) == IF fam = "XO" THEN XoBack(v) ELSE XsBack(v)

Init == fam \in {"XO", "XS", "TINY"} /\ i = 0 /\ j = 1
Next == /\ i < 127
        /\ IF j < 128 THEN j' = j + 1 /\ i' = i ELSE i' = i + 1 /\ j' = i + 2
        /\ UNCHANGED fam
Spec == Init /\ [][Next]_vars

a == Basis(i)
b == Basis(j)
Linear == /\ Fwd(Plus(a, b)) = Plus(Fwd(a), Fwd(b))
          /\ fam # "TINY" => Bwd(Plus(a, b)) = Plus(Bwd(a), Bwd(b))
Undone == fam # "TINY" => /\ Bwd(Fwd(a)) = a /\ Fwd(Bwd(a)) = a
                          /\ Bwd(Fwd(b)) = b /\ Fwd(Bwd(b)) = b
\* the value that an undone draw returned is the one the backward step reports
Drawn == fam = "XS" => Fwd(a)[4] = Fwd(Bwd(Fwd(a)))[4]
=============================================================================
