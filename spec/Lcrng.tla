------------------------------- MODULE Lcrng -------------------------------
(***************************************************************************)
(* Linear congruential generators over an abstract word type.              *)
(*                                                                         *)
(* A generator is an affine map <<mult, add>> on the words; drawing moves  *)
(* the seed one step and returns it.  The word type is a parameter, so the *)
(* same definitions are model checked exhaustively on small words          *)
(* (MC_Lcrng) and used at full width to judge traces of the real classes.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Add(_, _), Mul(_, _), Neg(_), \* word arithmetic
          BitOf(_, _),                 \* bit i of a distance
          NBits,                       \* width of seeds and distances
          Zero, One

Identity == <<One, Zero>>
\* the affine map "first f, then g"
Compose(f, g) == <<Mul(f[1], g[1]), Add(Mul(f[2], g[1]), g[2])>>
ApplyMap(f, s) == Add(Mul(f[1], s), f[2])

\* one documented step: seed * mult + add
Step(gen, s) == ApplyMap(gen, s)

\* k steps, one at a time
Steps(gen, s, k) == FoldLeft(LAMBDA acc, i : Step(gen, acc), s, [i \in 1..k |-> i])

\* gen^(2^i), the rows of the jump table
Row(gen, i) == FoldLeft(LAMBDA acc, j : Compose(acc, acc), gen, [j \in 1..i |-> j])

\* the affine map of n steps, for a distance given by its bits
Power(gen, n) ==
  FoldLeft(LAMBDA acc, i :
             <<IF BitOf(n, i - 1) = 1 THEN Compose(acc[1], acc[2]) ELSE acc[1],
               Compose(acc[2], acc[2])>>,
           <<Identity, gen>>, [i \in 1..NBits |-> i])[1]
Jump(gen, s, n) == ApplyMap(Power(gen, n), s)

\* modular inverse of an odd multiplier (Newton iteration doubles the correct bits)
Two == Add(One, One)
MulInverse(m) == FoldLeft(LAMBDA x, i : Mul(x, Add(Two, Neg(Mul(m, x)))), m, [i \in 1..6 |-> i])
\* the generator that undoes gen
ReverseGen(gen) == LET inv == MulInverse(gen[1]) IN <<inv, Neg(Mul(gen[2], inv))>>

=============================================================================
