----------------------------- MODULE WordsPure -----------------------------
(***************************************************************************)
(* Machine words, defined in plain TLA+.                                   *)
(*                                                                         *)
(* TLC integers are 32-bit, so an unsigned 32-bit word is represented by   *)
(* the TLC integer with the same bit pattern (-2^31 .. 2^31-1) and a       *)
(* 64-bit word by the pair <<high word, low word>>.  Everything below is a *)
(* definition; module Words re-exports it and TLC may accelerate it with   *)
(* the Java class Words, which MC_Words checks against these definitions.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

MinInt == -2147483647 - 1
AllOnes == -1

\* two 16-bit halves of a word, and back
Hi16(a) == shiftR(a, 16) & 65535
Lo16(a) == a & 65535
Comb16(hi, lo) == (IF hi < 32768 THEN hi ELSE hi - 65536) * 65536 + lo
\* four bytes, most significant first
Comb8(b3, b2, b1, b0) == Comb16(b3 * 256 + b2, b1 * 256 + b0)

PAdd32(a, b) ==
  LET lo == Lo16(a) + Lo16(b)
      hi == Hi16(a) + Hi16(b) + (lo \div 65536)
  IN Comb16(hi % 65536, lo % 65536)

PNot32(a) == -1 - a
PNeg32(a) == PAdd32(PNot32(a), 1)
PSub32(a, b) == PAdd32(a, PNeg32(b))

PAnd32(a, b) == a & b
POr32(a, b) == a | b
PXor32(a, b) == a ^^ b

\* bit i (0 = least significant) of a word
PBit32(a, i) == IF i = 31 THEN (IF a < 0 THEN 1 ELSE 0)
                ELSE ((IF a < 0 THEN a - MinInt ELSE a) \div (2^i)) % 2

\* shifts by 0..31 move bits; a shift by 32 or more leaves nothing
PShl32(a, k) ==
  IF k = 0 THEN a ELSE IF k >= 32 THEN 0 ELSE
  LET m == IF k = 31 THEN 0 ELSE (a & ((2^(31-k)) - 1)) * 2^k
  IN IF PBit32(a, 31 - k) = 1 THEN m + MinInt ELSE m

PShr32(a, k) ==
  IF k = 0 THEN a ELSE IF k >= 32 THEN 0 ELSE
  LET low == (IF a < 0 THEN a - MinInt ELSE a) \div (IF k = 31 THEN MinInt ELSE 2^k)
      lowr == IF k = 31 THEN 0 ELSE low
  IN IF a < 0 THEN lowr + 2^(31 - k) ELSE lowr

PRotl32(a, k) == LET c == k % 32 IN IF c = 0 THEN a ELSE POr32(PShl32(a, c), PShr32(a, 32 - c))
PRotr32(a, k) == LET c == k % 32 IN IF c = 0 THEN a ELSE POr32(PShr32(a, c), PShl32(a, 32 - c))

\* unsigned comparison
PLt32(a, b) == IF (a < 0) = (b < 0) THEN a < b ELSE b < 0

\* 16x16 -> 32
M16(a, b) == LET ah == a \div 256  al == a % 256
             IN PAdd32(al * b, PShl32(ah * b, 8))

\* full 64-bit product of two 32-bit words, as <<high, low>>
PMulWide(a, b) ==
  LET al == Lo16(a)  ah == Hi16(a)  bl == Lo16(b)  bh == Hi16(b)
      ll == M16(al, bl)  lh == M16(al, bh)  hl == M16(ah, bl)  hh == M16(ah, bh)
      mid == Hi16(ll) + Lo16(lh) + Lo16(hl)
      lo  == Comb16(mid % 65536, Lo16(ll))
      hi  == PAdd32(PAdd32(PAdd32(hh, Hi16(lh)), Hi16(hl)), mid \div 65536)
  IN <<hi, lo>>
PMul32(a, b) == PMulWide(a, b)[2]
PMulHi32(a, b) == PMulWide(a, b)[1]

------------------------------------------------------------------------------
\* 64-bit words

PZero64 == <<0, 0>>
PAdd64(a, b) ==
  LET lo == PAdd32(a[2], b[2])
      carry == IF PLt32(lo, a[2]) THEN 1 ELSE 0
  IN <<PAdd32(PAdd32(a[1], b[1]), carry), lo>>
PNot64(a) == <<PNot32(a[1]), PNot32(a[2])>>
PNeg64(a) == PAdd64(PNot64(a), <<0, 1>>)
PSub64(a, b) == PAdd64(a, PNeg64(b))
PAnd64(a, b) == <<a[1] & b[1], a[2] & b[2]>>
POr64(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
PXor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
PShl64(a, k) ==
  IF k = 0 THEN a ELSE IF k >= 64 THEN PZero64
  ELSE IF k >= 32 THEN <<PShl32(a[2], k - 32), 0>>
  ELSE <<PShl32(a[1], k) | PShr32(a[2], 32 - k), PShl32(a[2], k)>>
PShr64(a, k) ==
  IF k = 0 THEN a ELSE IF k >= 64 THEN PZero64
  ELSE IF k >= 32 THEN <<0, PShr32(a[1], k - 32)>>
  ELSE <<PShr32(a[1], k), PShr32(a[2], k) | PShl32(a[1], 32 - k)>>
PRotl64(a, k) == LET c == k % 64 IN IF c = 0 THEN a ELSE POr64(PShl64(a, c), PShr64(a, 64 - c))
PRotr64(a, k) == LET c == k % 64 IN IF c = 0 THEN a ELSE POr64(PShr64(a, c), PShl64(a, 64 - c))
PLt64(a, b) == IF a[1] = b[1] THEN PLt32(a[2], b[2]) ELSE PLt32(a[1], b[1])
PBit64(a, i) == IF i >= 32 THEN PBit32(a[1], i - 32) ELSE PBit32(a[2], i)
PMul64(a, b) ==
  LET p == PMulWide(a[2], b[2])
  IN <<PAdd32(p[1], PAdd32(PMul32(a[1], b[2]), PMul32(a[2], b[1]))), p[2]>>

\* unsigned remainder and quotient by long division, most significant bit first
RECURSIVE DivStep(_, _, _, _, _)
DivStep(a, m, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET top == PBit64(r, 63) = 1
           r2 == POr64(PShl64(r, 1), <<0, PBit64(a, i)>>)
           sub == top \/ ~PLt64(r2, m)
       IN DivStep(a, m, i - 1,
                  POr64(PShl64(q, 1), <<0, IF sub THEN 1 ELSE 0>>),
                  IF sub THEN PSub64(r2, m) ELSE r2)
PDiv64(a, m) == DivStep(a, m, 63, PZero64, PZero64)[1]
PMod64(a, m) == DivStep(a, m, 63, PZero64, PZero64)[2]
PDiv32(a, m) == PDiv64(<<0, a>>, <<0, m>>)[2]
PMod32(a, m) == PMod64(<<0, a>>, <<0, m>>)[2]

=============================================================================
