----------------------------- MODULE MC_Lcrng -----------------------------
(***************************************************************************)
(* Exhaustive check of the LCG design on W-bit words: for every odd        *)
(* multiplier, every increment and every starting seed, any interleaving   *)
(* of forward/backward draws and forward/backward/constant jumps leaves    *)
(* the generator exactly where the net number of single steps would, and   *)
(* every bounded draw lies in range.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS W

M == 2^W
AddW(x, y) == (x + y) % M
MulW(x, y) == (x * y) % M
NegW(x) == (M - x) % M
BitW(n, i) == (n \div 2^i) % 2
L == INSTANCE Lcrng WITH Add <- AddW, Mul <- MulW, Neg <- NegW, BitOf <- BitW,
                         NBits <- W, Zero <- 0, One <- 1

VARIABLES mult, add, s0, seed, pos       \* pos: net steps modulo the word size
vars == <<mult, add, s0, seed, pos>>
gen == <<mult, add>>
back == L!ReverseGen(gen)

Init == /\ mult \in {m \in 0..M-1 : m % 2 = 1} /\ add \in 0..M-1 /\ s0 \in 0..M-1
        /\ seed = s0 /\ pos = 0
Keep == UNCHANGED <<mult, add, s0>>
Next_ == seed' = L!Step(gen, seed) /\ pos' = (pos + 1) % M /\ Keep
Previous == seed' = L!Step(back, seed) /\ pos' = (pos - 1) % M /\ Keep
JumpFwd(n) == seed' = L!Jump(gen, seed, n) /\ pos' = (pos + n) % M /\ Keep
JumpBack(n) == seed' = L!Jump(back, seed, n) /\ pos' = (pos - n) % M /\ Keep
AdvanceBy(n) == seed' = L!Steps(gen, seed, n) /\ pos' = (pos + n) % M /\ Keep
Next == Next_ \/ Previous \/ \E n \in 0..M-1 : JumpFwd(n) \/ JumpBack(n) \/ AdvanceBy(n)
Spec == Init /\ [][Next]_vars

\* the seed is a function of the number of steps alone
AtPosition == seed = L!Steps(gen, s0, pos)
Undo == L!Step(back, L!Step(gen, seed)) = seed /\ L!Step(gen, L!Step(back, seed)) = seed
InverseLaw == MulW(mult, L!MulInverse(mult)) = 1
RowLaw == \A i \in 0..W-1 : L!Row(gen, i) = L!Power(gen, 2^i)
\* the forward map is a bijection, so every position has exactly one predecessor
\* bounded draws on the upper half word
H == 2^(W \div 2)
Upper == seed \div H
InRange == (W % 2 = 0) => \A mx \in 1..H-1 :
             /\ Upper % mx < mx
             /\ Upper \div (((H - 1) \div mx) + 1) < mx
             /\ (Upper * mx) \div H < mx
=============================================================================
