------------------------------ MODULE MC_Words ------------------------------
(***************************************************************************)
(* The operators of Words (possibly evaluated natively) agree with their   *)
(* plain TLA+ definitions and with bit-level definitions, on every pair of *)
(* a boundary-dense set of operands.                                       *)
(***************************************************************************)
EXTENDS Words, FiniteSets, TLC

CONSTANT Rich      \* TRUE: larger operand set

Small == {0, 1, 2, 3, 4, 7, 10, 25, 100, 127, 128, 255, 256, 624, 4095, 32767, 32768, 65535, 65536,
          65537, 16777215, 16777216, 1073741823, 1073741824, 2147483646, 2147483647,
          MinInt, MinInt + 1, MinInt + 65535, MinInt + 65536, -65536, -65535, -256, -3, -2, -1}
Mixed == {1103515245, 1812433253, 214013, -1727483681, -1658038656, -272236544, 305419896,
          -1412567278, 19088743, -1985229329, 987654321, -987654321, 252645135, -252645136,
          1431655765, -1431655766, 858993459, -858993460}
Ops32 == IF Rich THEN Small \cup Mixed \cup { Shl32(1, k) : k \in 0..31 } \cup { Sub32(Shl32(1, k), 1) : k \in 0..31 }
         ELSE Small \cup Mixed
Half == {0, 1, 2, 255, 65536, 2147483647, MinInt, -1, -2, 1103515245, -1985229329}
Ops64 == { <<h, w>> : h \in IF Rich THEN Half ELSE {0, 1, MinInt, -1, 1103515245},
                       w \in IF Rich THEN Half ELSE {0, 1, 65536, MinInt, -1, -1985229329} }

VARIABLES kind, a, b
vars == <<kind, a, b>>
Init == \/ kind = -32 /\ a \in Ops32 /\ b = 0
        \/ kind = -64 /\ a \in Ops64 /\ b = Zero64
\* pick the second operand
Next == /\ kind < 0 /\ kind' = 0 - kind /\ a' = a
        /\ b' \in IF kind = -32 THEN Ops32 ELSE Ops64
Spec == Init /\ [][Next]_vars

Bits32(x) == [i \in 0..31 |-> PBit32(x, i)]
Bits64(x) == [i \in 0..63 |-> PBit64(x, i)]
RECURSIVE CarryAt(_, _, _)
CarryAt(x, y, i) == IF i = 0 THEN 0
                    ELSE LET c == CarryAt(x, y, i - 1)
                         IN IF x[i-1] + y[i-1] + c >= 2 THEN 1 ELSE 0

Agree32 == kind = 32 =>
  /\ Add32(a, b) = PAdd32(a, b) /\ Sub32(a, b) = PSub32(a, b)
  /\ And32(a, b) = PAnd32(a, b) /\ Or32(a, b) = POr32(a, b) /\ Xor32(a, b) = PXor32(a, b)
  /\ MulWide(a, b) = PMulWide(a, b) /\ Mul32(a, b) = PMul32(a, b) /\ MulHi32(a, b) = PMulHi32(a, b)
  /\ Not32(a) = PNot32(a) /\ Neg32(a) = PNeg32(a) /\ Lt32(a, b) = PLt32(a, b)
  /\ b # 0 => Div32(a, b) = PDiv32(a, b) /\ Mod32(a, b) = PMod32(a, b)
Shifts32 == kind = 32 /\ b = 0 => \A k \in 0..40 :
  /\ Shl32(a, k) = PShl32(a, k) /\ Shr32(a, k) = PShr32(a, k)
  /\ k < 32 => Bit32(a, k) = PBit32(a, k) /\ Rotl32(a, k) = PRotl32(a, k) /\ Rotr32(a, k) = PRotr32(a, k)
\* the definitions themselves, bit by bit
Meaning32 == kind = 32 =>
  LET x == Bits32(a) y == Bits32(b) IN
  /\ \A i \in 0..31 : PBit32(And32(a, b), i) = x[i] * y[i]
                   /\ PBit32(Xor32(a, b), i) = (x[i] + y[i]) % 2
                   /\ PBit32(Or32(a, b), i) = x[i] + y[i] - x[i] * y[i]
                   /\ PBit32(Add32(a, b), i) = (x[i] + y[i] + CarryAt(x, y, i)) % 2
                   /\ PBit32(Not32(a), i) = 1 - x[i]
  /\ b = 1 => \A k \in 0..31 :
       /\ Bits32(Shl32(a, k)) = [i \in 0..31 |-> IF i >= k THEN x[i - k] ELSE 0]
       /\ Bits32(Shr32(a, k)) = [i \in 0..31 |-> IF i + k < 32 THEN x[i + k] ELSE 0]
       /\ Bits32(Rotl32(a, k)) = [i \in 0..31 |-> x[(i - k) % 32]]
       /\ Bits32(Rotr32(a, k)) = [i \in 0..31 |-> x[(i + k) % 32]]
  /\ b # 0 => /\ Add32(Mul32(Div32(a, b), b), Mod32(a, b)) = a
              /\ Lt32(Mod32(a, b), b)
              /\ MulHi32(Div32(a, b), b) = 0
  /\ Sub32(Add32(a, b), b) = a
  /\ b = 1 => Bswap32(Bswap32(a)) = a /\ \A k \in 0..3 : Byte(Bswap32(a), k) = Byte(a, 3 - k)

Agree64 == kind = 64 =>
  /\ Add64(a, b) = PAdd64(a, b) /\ Sub64(a, b) = PSub64(a, b)
  /\ And64(a, b) = PAnd64(a, b) /\ Or64(a, b) = POr64(a, b) /\ Xor64(a, b) = PXor64(a, b)
  /\ Mul64(a, b) = PMul64(a, b) /\ Not64(a) = PNot64(a) /\ Neg64(a) = PNeg64(a)
  /\ Lt64(a, b) = PLt64(a, b)
  /\ b # Zero64 => Div64(a, b) = PDiv64(a, b) /\ Mod64(a, b) = PMod64(a, b)
Shifts64 == kind = 64 /\ b = Zero64 => \A k \in 0..70 :
  /\ Shl64(a, k) = PShl64(a, k) /\ Shr64(a, k) = PShr64(a, k)
  /\ k < 64 => Bit64(a, k) = PBit64(a, k) /\ Rotl64(a, k) = PRotl64(a, k) /\ Rotr64(a, k) = PRotr64(a, k)
Meaning64 == kind = 64 =>
  LET x == Bits64(a) y == Bits64(b) IN
  /\ \A i \in {0, 1, 15, 16, 30, 31, 32, 33, 47, 48, 62, 63} :
        PBit64(Add64(a, b), i) = (x[i] + y[i] + CarryAt(x, y, i)) % 2
  /\ Sub64(Add64(a, b), b) = a
  /\ b = One64 => \A k \in 0..63 :
       /\ Bits64(Shl64(a, k)) = [i \in 0..63 |-> IF i >= k THEN x[i - k] ELSE 0]
       /\ Bits64(Shr64(a, k)) = [i \in 0..63 |-> IF i + k < 64 THEN x[i + k] ELSE 0]
       /\ Bits64(Rotl64(a, k)) = [i \in 0..63 |-> x[(i - k) % 64]]
       /\ Bits64(Rotr64(a, k)) = [i \in 0..63 |-> x[(i + k) % 64]]
  /\ b # Zero64 => /\ Add64(Mul64(Div64(a, b), b), Mod64(a, b)) = a
                   /\ Lt64(Mod64(a, b), b)
=============================================================================
