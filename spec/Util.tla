-------------------------------- MODULE Util --------------------------------
(***************************************************************************)
(* The stateless helpers: byte swap, rotations, FNV hashes, formatting,    *)
(* masks and modular inverses, by their mathematical definitions.          *)
(* A text is a sequence of code points, given as one word each.            *)
(***************************************************************************)
EXTENDS Sha1

FnvBasis == <<-873292572, -2078136763>>            \* 0xCBF29CE4 84222645
FnvPrime == <<256, 435>>                           \* 0x00000100 000001B3
Fnv1(t)  == FoldLeft(LAMBDA h, c : Xor64(Mul64(h, FnvPrime), <<0, c[1]>>), FnvBasis, t)
Fnv1a(t) == FoldLeft(LAMBDA h, c : Mul64(Xor64(h, <<0, c[1]>>), FnvPrime), FnvBasis, t)

\* the code points of a number's eight upper case hexadecimal digits
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Hex8(w) == [i \in 1..8 |-> HexDigit(And32(Shr32(w, 32 - 4 * i), 15))]

\* x is the inverse of m modulo 2^64 (m odd): multiplication undoes it
Inverse64(m) == L64!MulInverse(m)
Inverse32(m) == L32!MulInverse(m)

\* the inverse of v modulo any m >= 1, by Euclid's divisions (r0, r1) with x0 * v = r0 and x1 * v = r1 modulo m
RECURSIVE Euclid(_, _, _, _, _)
Euclid(r0, r1, x0, x1, m) ==
  IF r1 = 0 THEN IF r0 = 1 THEN <<1, x0>> ELSE <<0>>
  ELSE LET qx == Mod64(MulWide(Div32(r0, r1), x1), <<0, m>>)[2]
       IN Euclid(r1, Mod32(r0, r1), x1, IF Lt32(x0, qx) THEN Sub32(m, Sub32(qx, x0)) ELSE Sub32(x0, qx), m)
Residue(v, negative, m) == LET n == Mod32(v, m) IN IF negative = 1 /\ n # 0 THEN Sub32(m, n) ELSE n
InverseMod(v, negative, m) == Euclid(m, Residue(v, negative, m), 0, Mod32(1, m), m)

UtilDo(op, a) ==
  CASE op = "bswap" -> <<Bswap32(a[1][1])>>
    [] op = "rotl32" -> <<Rotl32(a[1][1], a[2][1])>>
    [] op = "rotr32" -> <<Rotr32(a[1][1], a[2][1])>>
    [] op = "rotl64" -> Rotl64(a[1], a[2][1])
    [] op = "rotr64" -> Rotr64(a[1], a[2][1])
    [] op = "fnv1" -> Fnv1(a)
    [] op = "fnv1a" -> Fnv1a(a)
    [] op = "tname" -> Fnv1a(a)                    \* a table's name is filed under its hash
    [] op = "hex" -> Hex8(a[1][1])
    [] op = "inv32" -> <<Inverse32(a[1][1])>>
    [] op = "inv64" -> Inverse64(a[1])
    \* no inverse: refused
    [] op = "inv" -> InverseMod(a[1][1], a[2][1], a[3][1])
    [] op = "mask" -> <<BitMask(a[1][1])>>
    [] OTHER -> Unknown
=============================================================================
