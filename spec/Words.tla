------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* The word operations used by every specification in this directory.      *)
(* They are defined by WordsPure; the class Words (Words.java), when on    *)
(* TLC's class path, evaluates the same operators natively.  MC_Words      *)
(* checks the two against each other.                                      *)
(***************************************************************************)
EXTENDS WordsPure

Add32(a, b) == PAdd32(a, b)
Sub32(a, b) == PSub32(a, b)
And32(a, b) == PAnd32(a, b)
Or32(a, b) == POr32(a, b)
Xor32(a, b) == PXor32(a, b)
Shl32(a, b) == PShl32(a, b)
Shr32(a, b) == PShr32(a, b)
Rotl32(a, b) == PRotl32(a, b)
Rotr32(a, b) == PRotr32(a, b)
Mul32(a, b) == PMul32(a, b)
MulHi32(a, b) == PMulHi32(a, b)
Div32(a, b) == PDiv32(a, b)
Mod32(a, b) == PMod32(a, b)
Lt32(a, b) == PLt32(a, b)
Bit32(a, b) == PBit32(a, b)
MulWide(a, b) == PMulWide(a, b)
Add64(a, b) == PAdd64(a, b)
Sub64(a, b) == PSub64(a, b)
And64(a, b) == PAnd64(a, b)
Or64(a, b) == POr64(a, b)
Xor64(a, b) == PXor64(a, b)
Shl64(a, b) == PShl64(a, b)
Shr64(a, b) == PShr64(a, b)
Rotl64(a, b) == PRotl64(a, b)
Rotr64(a, b) == PRotr64(a, b)
Mul64(a, b) == PMul64(a, b)
Div64(a, b) == PDiv64(a, b)
Mod64(a, b) == PMod64(a, b)
Lt64(a, b) == PLt64(a, b)
Bit64(a, b) == PBit64(a, b)
Not32(a) == PNot32(a)
Neg32(a) == PNeg32(a)
Not64(a) == PNot64(a)
Neg64(a) == PNeg64(a)

\* signed/unsigned helpers that need no acceleration
Bit(b) == IF b THEN 1 ELSE 0
Bswap32(a) == Comb8(a & 255, Shr32(a, 8) & 255, Shr32(a, 16) & 255, Shr32(a, 24) & 255)
Byte(a, i) == Shr32(a, 8 * i) & 255      \* i = 0: least significant
\* the code points of a text; TLC has no operator for it, so this one is native only
Codes(text) == CHOOSE t \in {} : text = t

Zero64 == <<0, 0>>
One64 == <<0, 1>>
=============================================================================
