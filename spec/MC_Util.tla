------------------------------ MODULE MC_Util -------------------------------
(***************************************************************************)
(* Util: swapping and rotating undo themselves, an inverse is an inverse,  *)
(* eight digits determine the word, a mask is the least of its kind.       *)
(***************************************************************************)
EXTENDS Util, FiniteSets

VARIABLES x, y
vars == <<x, y>>
Corners == {0, 1, 2, 3, 5, 255, 256, 65535, 65536, 305419896, -1985229329, 2147483647, MinInt, MinInt + 1, -2, -1}
Words32 == Corners \cup {Shl32(1, k) : k \in 0..31} \cup {Sub32(Shl32(1, k), 1) : k \in 0..31}
Init == x \in Words32 /\ y = -1
Next == y = -1 /\ y' \in Words32 \ {-1} /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

Odd(w) == Or32(w, 1)
Undone == \A k \in 0..63 :
  /\ k < 32 => Rotr32(Rotl32(x, k), k) = x /\ Rotl32(x, k) = Rotr32(x, (32 - k) % 32)
  /\ Rotr64(Rotl64(<<x, y>>, k), k) = <<x, y>> /\ Rotl64(<<x, y>>, k) = Rotr64(<<x, y>>, (64 - k) % 64)
Swapped == Bswap32(Bswap32(x)) = x
Inverted == /\ Mul32(Odd(x), Inverse32(Odd(x))) = 1
            /\ Mul64(<<y, Odd(x)>>, Inverse64(<<y, Odd(x)>>)) = One64
\* and there is none exactly where no product is 1
InvertedMod == y # 0 =>
  LET i == InverseMod(x, 0, y)
      j == InverseMod(x, 1, y)
  IN /\ i[1] = 1 => Lt32(i[2], y) /\ Mod64(MulWide(i[2], x), <<0, y>>) = <<0, Mod32(1, y)>>
     /\ i[1] = j[1] /\ (i[1] = 1 => j[2] = Residue(i[2], 1, y))
     /\ (y \in 1..300 /\ i[1] = 0) => \A k \in 0..(y - 1) : (Mod32(x, y) * k) % y # 1 % y
Digit(c) == IF c >= 65 THEN c - 55 ELSE c - 48
Digits == FoldLeft(LAMBDA acc, i : Or32(Shl32(acc, 4), Digit(Hex8(x)[i])), 0, Range0(8)) = x
Least == x # 0 =>
  LET m == BitMask(x)
  IN /\ And32(m, Add32(m, 1)) = 0                    \* 2^k - 1
     /\ ~Lt32(m, Sub32(x, 1))                        \* holds every value below x
     /\ m # 0 => Lt32(Shr32(m, 1), Sub32(x, 1))      \* and no smaller one does
\* hashing is a step per character
Hashed == LET t == <<<<65>>, <<And32(x, 1114111)>>>>
          IN Fnv1a(t) = Mul64(Xor64(Fnv1a(<<t[1]>>), <<0, t[2][1]>>), FnvPrime) /\ Fnv1(<<>>) = FnvBasis
=============================================================================
