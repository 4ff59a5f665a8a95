------------------------------- MODULE Prngs -------------------------------
(***************************************************************************)
(* Every generator of the library at full machine width: state, draws,     *)
(* bounded draws, jumps and backward steps, written from the documented    *)
(* recurrences and not from the code.  Objects are records with a "cls"    *)
(* field; Do(ob, op, a) is the transition function: the successor object   *)
(* and the observable result of calling op with arguments a.               *)
(* Words are single integers (32 bit) or pairs (64 bit); results and       *)
(* arguments are sequences of words, most significant first.               *)
(***************************************************************************)
EXTENDS Blocks, TLC

L32 == INSTANCE Lcrng WITH Add <- Add32, Mul <- Mul32, Neg <- Neg32, BitOf <- Bit32,
                           NBits <- 32, Zero <- 0, One <- 1
L64 == INSTANCE Lcrng WITH Add <- Add64, Mul <- Mul64, Neg <- Neg64, BitOf <- Bit64,
                           NBits <- 64, Zero <- Zero64, One <- One64

Range0(n) == [i \in 1..n |-> i]
Repeat(f(_), n, x) == FoldLeft(LAMBDA acc, i : f(acc), x, Range0(n))

------------------------------------------------------------------------------
\* Linear congruential generators (documented constants)
PokeGen == <<1103515245, 24691>>            \* 0x41C64E6D, 0x6073
AGen    == <<1812433253, 1>>                \* 0x6C078965, 1
XDGen   == <<214013, 2531011>>              \* 0x343FD, 0x269EC3
BWGen   == << <<1566083941, 1812433253>>, <<0, 2531011>> >>   \* 0x5D588B656C078965

Gen32(name) ==
  CASE name \in {"PokeRNGMod", "PokeRNGDiv"} -> PokeGen
    [] name \in {"PokeRNGRMod", "PokeRNGRDiv"} -> L32!ReverseGen(PokeGen)
    [] name = "ARNG" -> AGen
    [] name = "ARNGR" -> L32!ReverseGen(AGen)
    [] name = "XDRNG" -> XDGen
    [] name = "XDRNGR" -> L32!ReverseGen(XDGen)
Gen64(name) == IF name = "BWRNG" THEN BWGen ELSE L64!ReverseGen(BWGen)
Dist(name) ==
  CASE name \in {"PokeRNGMod", "PokeRNGRMod", "XDRNG", "XDRNGR"} -> "mod"
    [] name \in {"PokeRNGDiv", "PokeRNGRDiv"} -> "div"
    [] name \in {"BWRNG", "BWRNGR"} -> "mulshift"
    [] OTHER -> "none"
Names32 == {"PokeRNGMod", "PokeRNGDiv", "PokeRNGRMod", "PokeRNGRDiv", "ARNG", "ARNGR", "XDRNG", "XDRNGR"}
Names64 == {"BWRNG", "BWRNGR"}

\* bounded draw from a 16-bit value
Bounded16(dist, v, mx) == IF dist = "mod" THEN v % mx ELSE v \div ((65535 \div mx) + 1)

NoResult == <<>>
Unknown == <<0, 0, 0, 0, 0, 0, 0>>   \* matches no recorded result

Lcg32(ob, op, a) ==
  LET s1 == L32!Step(ob.gen, ob.s)
      to(s) == [ob EXCEPT !.s = s]
  IN CASE op = "next" -> <<to(s1), <<s1>>>>
       [] op = "u16" -> <<to(s1), <<Hi16(s1)>>>>
       [] op \in {"jump", "cjump", "adv"} -> LET s == L32!Jump(ob.gen, ob.s, a[1][1]) IN <<to(s), <<s>>>>
       [] op = "walk" -> LET s == L32!Steps(ob.gen, ob.s, a[1][1]) IN <<to(s), <<s>>>>
       [] op \in {"rand", "crand"} /\ ob.dist # "none" ->
            <<to(s1), <<Bounded16(ob.dist, Hi16(s1), a[1][1])>>>>
       [] op = "reinit" -> <<to(a[1][1]), NoResult>>
       \* bounded draws from the seeds start, start + delta, ...
       [] op = "sweep" /\ ob.dist # "none" ->
            LET at(i) == L32!Step(ob.gen, Add32(a[2][1], Mul32(a[3][1], i)))
            IN <<to(at(a[1][1] - 1)),
                 [i \in 1..a[1][1] |-> Bounded16(ob.dist, Hi16(at(i - 1)), a[4][1])]>>
       [] OTHER -> <<ob, Unknown>>

Lcg64(ob, op, a) ==
  LET s1 == L64!Step(ob.gen, ob.s)
      to(s) == [ob EXCEPT !.s = s]
  IN CASE op = "next" -> <<to(s1), s1>>
       [] op = "u32" -> <<to(s1), <<s1[1]>>>>
       [] op \in {"jump", "cjump", "adv"} -> LET s == L64!Jump(ob.gen, ob.s, a[1]) IN <<to(s), s>>
       [] op = "walk" -> LET s == L64!Steps(ob.gen, ob.s, a[1][2]) IN <<to(s), s>>
       [] op \in {"rand", "crand"} /\ ob.dist = "mulshift" -> <<to(s1), <<MulHi32(s1[1], a[1][1])>>>>
       [] op = "reinit" -> <<to(a[1]), NoResult>>
       [] op = "sweep" /\ ob.dist = "mulshift" ->
            LET at(i) == L64!Step(ob.gen, Add64(a[2], Mul64(a[3], <<0, i>>)))
            IN <<to(at(a[1][1] - 1)), [i \in 1..a[1][1] |-> MulHi32(at(i - 1)[1], a[4][1])]>>
       [] OTHER -> <<ob, Unknown>>

------------------------------------------------------------------------------
\* MT19937
MtSeed(seed) ==
  FoldLeft(LAMBDA acc, i : LET p == acc[i] IN
             Append(acc, Add32(Mul32(1812433253, Xor32(p, Shr32(p, 30))), i)),
           <<seed>>, Range0(623))
MtTemper(y0) ==
  LET y1 == Xor32(y0, Shr32(y0, 11))
      y2 == Xor32(y1, And32(Shl32(y1, 7), -1658038656))      \* 0x9D2C5680
      y3 == Xor32(y2, And32(Shl32(y2, 15), -272236544))      \* 0xEFC60000
  IN Xor32(y3, Shr32(y3, 18))

MtDo(ob, op, a) ==
  LET u == TLCEval(Mt!Settle(ob.t))
      v == MtTemper(Mt!Peek(u))
      drawn == [ob EXCEPT !.t = Mt!Drop(u)]
      to(t) == [ob EXCEPT !.t = t]
  IN CASE op = "next" -> <<drawn, <<v>>>>
       [] op = "rand" -> <<drawn, <<MulHi32(v, a[1][1])>>>>
       [] op = "randmod" -> <<drawn, <<Mod32(v, a[1][1])>>>>
       [] op = "adv" -> <<to(TLCEval(Mt!Advance(ob.t, a[1][1]))), NoResult>>
       [] op = "shuffle" -> <<to(TLCEval(Mt!Shuffle(ob.t))), NoResult>>
       [] op = "reinit" -> <<to(Mt!Fresh(MtSeed(a[1][1]))), NoResult>>
       [] OTHER -> <<ob, Unknown>>

------------------------------------------------------------------------------
\* SFMT19937: a stream of 128-bit words, each a tuple of four 32-bit words,
\* least significant first; every word yields two 64-bit outputs
Parity32(x) == LET a == Xor32(x, Shr32(x, 16))  b == Xor32(a, Shr32(a, 8))
                   c == Xor32(b, Shr32(b, 4))   d == Xor32(c, Shr32(c, 2))
               IN And32(Xor32(d, Shr32(d, 1)), 1)
\* period certification: the parity of the masked first 128-bit word must be odd
SfmtParity == <<1, 0, 0, 331998852>>         \* 1, 0, 0, 0x13C9E684
Certified(w) == LET p == Xor32(Xor32(And32(w[1], SfmtParity[1]), And32(w[2], SfmtParity[2])),
                               Xor32(And32(w[3], SfmtParity[3]), And32(w[4], SfmtParity[4])))
                IN IF Parity32(p) = 1 THEN w ELSE [w EXCEPT ![1] = Xor32(@, 1)]
SfmtSeed(seed) == LET w == MtSeed(seed)
                      grouped == [g \in 1..156 |-> <<w[4*g-3], w[4*g-2], w[4*g-1], w[4*g]>>]
                  IN [grouped EXCEPT ![1] = Certified(@)]
\* half: 0 = the low 64-bit half of the current word is next, 1 = the high half
SfmtDo(ob, op, a) ==
  LET u == TLCEval(Sf!Settle(ob.t))
      w == Sf!Peek(u)
      v == IF ob.half = 0 THEN <<w[2], w[1]>> ELSE <<w[4], w[3]>>
      drawn == IF ob.half = 0 THEN [ob EXCEPT !.t = u, !.half = 1]
               ELSE [ob EXCEPT !.t = Sf!Drop(u), !.half = 0]
      k == a[1][1]
  IN CASE op = "next" -> <<drawn, v>>
       [] op = "rand" -> <<drawn, Mod64(v, a[1])>>
       [] op = "adv" -> <<[ob EXCEPT !.t = TLCEval(Sf!Advance(ob.t, (k + ob.half) \div 2)),
                                     !.half = (k + ob.half) % 2], NoResult>>
       [] op = "shuffle" -> <<[ob EXCEPT !.t = TLCEval(Sf!Shuffle(ob.t)), !.half = 0], NoResult>>
       [] op = "reinit" -> <<[ob EXCEPT !.t = Sf!Fresh(SfmtSeed(a[1][1])), !.half = 0], NoResult>>
       [] OTHER -> <<ob, Unknown>>

------------------------------------------------------------------------------
\* TinyMT (32-bit) with mat1 = 0x8F7011EE, mat2 = 0xFC78FF1F, tmat = 0x3793FDFF
TinyMat1 == -1888480786
TinyMat2 == -59179233
TinyTmat == 932445695
TinyStep(s) ==
  LET x0 == Xor32(Xor32(And32(s[1], 2147483647), s[2]), s[3])
      x == Xor32(x0, Shl32(x0, 1))
      y == Xor32(Xor32(s[4], Shr32(s[4], 1)), x)
      odd == And32(y, 1) = 1
  IN <<s[2], Xor32(s[3], IF odd THEN TinyMat1 ELSE 0),
       Xor32(Xor32(x, Shl32(y, 10)), IF odd THEN TinyMat2 ELSE 0), y>>
TinyTemper(s) ==
  LET t1 == Add32(s[1], Shr32(s[3], 8))
  IN Xor32(Xor32(s[4], t1), IF And32(t1, 1) = 1 THEN TinyTmat ELSE 0)
TinySeed(seed) ==
  LET st == FoldLeft(LAMBDA acc, i :
               LET p == acc[((i - 1) % 4) + 1]
               IN [acc EXCEPT ![(i % 4) + 1] = Xor32(@, Add32(Mul32(1812433253, Xor32(p, Shr32(p, 30))), i))],
               <<seed, TinyMat1, TinyMat2, TinyTmat>>, Range0(7))
      cert == IF And32(st[1], 2147483647) = 0 /\ st[2] = 0 /\ st[3] = 0 /\ st[4] = 0
              THEN <<84, 73, 78, 89>> ELSE st       \* "TINY"
  IN Repeat(TinyStep, 8, cert)
TinyDo(ob, op, a) ==
  LET s1 == TinyStep(ob.s)
      v == TinyTemper(s1)
      to(s) == [ob EXCEPT !.s = s]
  IN CASE op = "next" -> <<to(s1), <<v>>>>
       [] op = "rand" -> <<to(s1), <<MulHi32(v, a[1][1])>>>>
       [] op = "randmod" -> <<to(s1), <<Mod32(v, a[1][1])>>>>
       [] op = "adv" -> <<to(Repeat(TinyStep, a[1][1], ob.s)), NoResult>>
       [] op = "shuffle" -> <<to(s1), NoResult>>
       [] op = "temper" -> <<ob, <<TinyTemper(ob.s)>>>>
       [] op = "reinit" -> <<to(TinySeed(a[1][1])), NoResult>>
       [] OTHER -> <<ob, Unknown>>

------------------------------------------------------------------------------
\* Xorshift128 (shifts 11, 8, 19)
XsStep(s) ==
  LET t == Xor32(s[1], Shl32(s[1], 11))
      n == Xor32(Xor32(t, Shr32(t, 8)), Xor32(s[4], Shr32(s[4], 19)))
  IN <<s[2], s[3], s[4], n>>
\* inverse of x -> x ^ (x << k) and x -> x ^ (x >> k): the finite geometric series
UnShl32(x, k) == FoldLeft(LAMBDA acc, i : Xor32(x, Shl32(acc, k)), x, Range0(32 \div k))
UnShr32(x, k) == FoldLeft(LAMBDA acc, i : Xor32(x, Shr32(acc, k)), x, Range0(32 \div k))
XsBack(s) ==
  LET t == Xor32(s[4], Xor32(s[3], Shr32(s[3], 19)))
  IN <<UnShl32(UnShr32(t, 8), 11), s[1], s[2], s[3]>>
XsDo(ob, op, a) ==
  LET s1 == XsStep(ob.s)
      v == s1[4]
      to(s) == [ob EXCEPT !.s = s]
  IN CASE op = "next" -> <<to(s1), <<v>>>>
       [] op = "prev" -> <<to(XsBack(ob.s)), <<ob.s[4]>>>>
       [] op = "adv" -> <<to(Repeat(XsStep, a[1][1], ob.s)), NoResult>>
       [] op = "rand" -> <<to(s1), <<Mod32(v, a[1][1])>>>>
       [] op = "range" -> <<to(s1), <<Add32(Mod32(v, Sub32(a[2][1], a[1][1])), a[1][1])>>>>
       \* range over [-0x80000000, 0x7FFFFFFF) as an unsigned word, then modulo
       [] op = "alt" -> <<to(s1), <<Mod32(Add32(Mod32(v, -1), MinInt), a[1][1])>>>>
       [] op = "reinit" -> <<to(<<a[1][1], a[2][1], a[3][1], a[4][1]>>), NoResult>>
       [] OTHER -> <<ob, Unknown>>
\* float draw in [min, max] from the low 23 bits k of a step: the real number
\* (k*min + (M-k)*max) / M with M = 2^23-1, for integer bounds.  The recorded
\* value arrives as q = floor(value * 2^16); float32 rounding of the three
\* operations stays well within the slack.
FltM == 8388607
FltOk(v, mn, mx, q) ==
  LET k == And32(v, FltM)
      want == k * mn + (FltM - k) * mx             \* value * M, |want| < 2^31
      scaled == q * 128                            \* value * 2^23 up to 128
  IN /\ scaled - want <= 512 /\ want - scaled <= 512
     /\ q >= mn * 65536 /\ q <= mx * 65536
\* between neighbouring integers every bit of k shows: the value arrives as
\* floor(value * 2^30), one unit of k is 128, rounding accounts for half of it
UnitOk(v, mn, mx, q) ==
  LET k == And32(v, FltM)
      want == k * mn + (FltM - k) * mx             \* value * M, |want| <= M
      scaled == (want * 128) + ((want * 128) \div FltM)
  IN q - scaled <= 66 /\ scaled - q <= 66

------------------------------------------------------------------------------
\* Xoroshiro128+ (24, 16, 37)
XoSum(s) == Add64(s[1], s[2])
XoStep(s) ==
  LET x == Xor64(s[1], s[2])
  IN <<Xor64(Xor64(Rotl64(s[1], 24), x), Shl64(x, 16)), Rotl64(x, 37)>>
XoBack(s) ==
  LET x == Rotr64(s[2], 37)
      s0 == Rotr64(Xor64(Xor64(s[1], x), Shl64(x, 16)), 24)
  IN <<s0, Xor64(x, s0)>>
XoDefault1 == <<-2103266955, 580741723>>         \* 0x82A2B175229D6A5B
\* the smallest 2^j - 1 covering value - 1
BitMask(m) ==
  LET v == Sub32(m, 1)
      js == {j \in 0..31 : Bit32(v, j) = 1}
  IN IF js = {} THEN 0
     ELSE LET j == CHOOSE x \in js : \A y \in js : y <= x IN Shr32(-1, 31 - j)
\* first masked draw below the maximum; 512 misses in a row do not happen
XoReject(s, m, mask) ==
  FoldLeft(LAMBDA acc, i :
             IF acc[2] THEN acc
             ELSE LET d == And64(XoSum(acc[1]), <<0, mask>>)
                  IN <<XoStep(acc[1]), Lt64(d, <<0, m>>), d>>,
           <<s, FALSE, Zero64>>, Range0(512))
XoDo(ob, op, a) ==
  LET to(s) == [ob EXCEPT !.s = s]
      b == XoBack(ob.s)
  IN CASE op = "next" -> <<to(XoStep(ob.s)), XoSum(ob.s)>>
       [] op = "prev" -> <<to(b), XoSum(b)>>
       [] op = "adv" -> <<to(Repeat(XoStep, a[1][2], ob.s)), NoResult>>
       [] op = "rand" -> LET r == XoReject(ob.s, a[1][1], BitMask(a[1][1])) IN <<to(r[1]), <<r[3][2]>>>>
       [] op = "mask" -> <<ob, <<BitMask(a[1][1])>>>>
       [] op = "reinit" -> <<to(<<a[1], IF Len(a) = 1 THEN XoDefault1 ELSE a[2]>>), NoResult>>
       [] OTHER -> <<ob, Unknown>>

\* splitmix64 seeding
Golden == <<-1640531527, 2135587861>>            \* 0x9E3779B97F4A7C15
SplitMix(seed, n) ==       \* n-th output (from 1) of splitmix64 started at seed
  LET z0 == Add64(seed, Mul64(Golden, <<0, n>>))
      z1 == Mul64(Xor64(z0, Shr64(z0, 30)), <<-1084733587, 484763065>>)      \* 0xBF58476D1CE4E5B9
      z2 == Mul64(Xor64(z1, Shr64(z1, 27)), <<-1798288965, 321982955>>)      \* 0x94D049BB133111EB
  IN Xor64(z2, Shr64(z2, 31))
XmSeed(seed) == <<SplitMix(seed, 1), SplitMix(seed, 2)>>
XmDo(ob, op, a) ==
  LET to(s) == [ob EXCEPT !.s = s]
      b == XoBack(ob.s)
      v == XoSum(ob.s)[1]
  IN CASE op = "next" -> <<to(XoStep(ob.s)), <<v>>>>
       [] op = "prev" -> <<to(b), <<XoSum(b)[1]>>>>
       [] op = "adv" -> <<to(Repeat(XoStep, a[1][2], ob.s)), NoResult>>
       [] op = "rand" -> <<to(XoStep(ob.s)), <<Mod32(v, a[1][1])>>>>
       [] op = "reinit" -> <<to(XmSeed(a[1])), NoResult>>
       [] OTHER -> <<ob, Unknown>>

------------------------------------------------------------------------------
\* construction and dispatch
NewPrng(c, a) ==
  CASE c \in Names32 -> [cls |-> "LCG32", gen |-> Gen32(c), dist |-> Dist(c), s |-> a[1][1]]
    [] c \in Names64 -> [cls |-> "LCG64", gen |-> Gen64(c), dist |-> Dist(c), s |-> a[1]]
    \* user-built classes: multiplier, increment, reversed?, seed
    [] c \in {"C32", "C32mod", "C32div"} ->
         LET g == <<a[1][1], a[2][1]>> IN
         [cls |-> "LCG32", gen |-> IF a[3][1] = 1 THEN L32!ReverseGen(g) ELSE g,
          dist |-> CASE c = "C32mod" -> "mod" [] c = "C32div" -> "div" [] OTHER -> "none", s |-> a[4][1]]
    [] c \in {"C64", "C64ms"} ->
         LET g == <<a[1], a[2]>> IN
         [cls |-> "LCG64", gen |-> IF a[3][1] = 1 THEN L64!ReverseGen(g) ELSE g,
          dist |-> IF c = "C64ms" THEN "mulshift" ELSE "none", s |-> a[4]]
    [] c = "MT" -> [cls |-> "MT", t |-> Mt!Fresh(MtSeed(a[1][1]))]
    [] c = "SFMT" -> [cls |-> "SFMT", t |-> Sf!Fresh(SfmtSeed(a[1][1])), half |-> 0]
    [] c = "TINY" -> [cls |-> "TINY", s |-> TinySeed(a[1][1])]
    [] c = "XS" -> [cls |-> "XS", s |-> <<a[1][1], a[2][1], a[3][1], a[4][1]>>]
    [] c = "XO" -> [cls |-> "XO", s |-> <<a[1], IF Len(a) = 1 THEN XoDefault1 ELSE a[2]>>]
    [] c = "XM" -> [cls |-> "XM", s |-> XmSeed(a[1])]

Do(ob, op, a) ==
  CASE ob.cls = "LCG32" -> Lcg32(ob, op, a)
    [] ob.cls = "LCG64" -> Lcg64(ob, op, a)
    [] ob.cls = "MT" -> MtDo(ob, op, a)
    [] ob.cls = "SFMT" -> SfmtDo(ob, op, a)
    [] ob.cls = "TINY" -> TinyDo(ob, op, a)
    [] ob.cls = "XS" -> XsDo(ob, op, a)
    [] ob.cls = "XO" -> XoDo(ob, op, a)
    [] ob.cls = "XM" -> XmDo(ob, op, a)

\* the public state attribute, where there is one
Obs(ob) ==
  CASE ob.cls = "LCG32" -> <<ob.s>>
    [] ob.cls = "LCG64" -> ob.s
    [] ob.cls = "XS" -> ob.s
    [] ob.cls \in {"XO", "XM"} -> ob.s[1] \o ob.s[2]
    [] OTHER -> <<>>
=============================================================================
