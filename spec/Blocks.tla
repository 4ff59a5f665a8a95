------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* The two Mersenne Twisters as instances of Twister, and many blocks at   *)
(* once.  The class Blocks (Blocks.java), when on TLC's class path,        *)
(* evaluates MtBlocks and SfBlocks natively: an advance by 2^32 - 1 is     *)
(* millions of blocks.  MC_Blocks checks it against the definitions here.  *)
(***************************************************************************)
EXTENDS Words, SequencesExt

MtTwist(a, b, m, y, z) ==
  LET v == Or32(And32(a, MinInt), And32(b, 2147483647))
  IN Xor32(Xor32(m, Shr32(v, 1)), IF And32(v, 1) = 1 THEN -1727483681 ELSE 0)   \* 0x9908B0DF
Mt == INSTANCE Twister WITH N <- 624, Mid <- 397, Twist <- MtTwist

\* SFMT: words of 128 bits, each a tuple of four 32-bit words, least significant first
Sl8(x) == <<Shl32(x[1], 8), Or32(Shl32(x[2], 8), Shr32(x[1], 24)),
            Or32(Shl32(x[3], 8), Shr32(x[2], 24)), Or32(Shl32(x[4], 8), Shr32(x[3], 24))>>
Sr8(x) == <<Or32(Shr32(x[1], 8), Shl32(x[2], 24)), Or32(Shr32(x[2], 8), Shl32(x[3], 24)),
            Or32(Shr32(x[3], 8), Shl32(x[4], 24)), Shr32(x[4], 8)>>
SfmtMask == <<-536870929, -570504321, -1074069505, -1073741834>> \* DFFFFFEF DDFECB7F BFFAFFFF BFFFFFF6
SfmtTwist(a, b, m, y, z) ==      \* a = x[k], m = x[k+122], y = x[k+154], z = x[k+155]
  LET sa == Sl8(a)  sy == Sr8(y)
  IN [j \in 1..4 |-> Xor32(Xor32(Xor32(a[j], sa[j]), And32(Shr32(m[j], 11), SfmtMask[j])),
                           Xor32(sy[j], Shl32(z[j], 18)))]
Sf == INSTANCE Twister WITH N <- 156, Mid <- 122, Twist <- SfmtTwist

\* the q-th block after b
MtBlocks(b, q) == FoldLeft(LAMBDA acc, i : Mt!NextBlock(acc), b, [i \in 1..q |-> i])
SfBlocks(b, q) == FoldLeft(LAMBDA acc, i : Sf!NextBlock(acc), b, [i \in 1..q |-> i])
=============================================================================
