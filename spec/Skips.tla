------------------------------- MODULE Skips --------------------------------
(***************************************************************************)
(* Far advances: the object n draws later, for any n, without n steps.     *)
(* A linear step is the 128 images of the basis vectors; its powers of two *)
(* come from squaring.                                                     *)
(***************************************************************************)
EXTENDS Prngs

\* vectors of four 32-bit words
Basis(k) == [x \in 1..4 |-> IF k \div 32 = x - 1 THEN Shl32(1, k % 32) ELSE 0]
Image(m, v) ==
  FoldLeft(LAMBDA acc, k : IF Bit32(v[(k \div 32) + 1], k % 32) = 0 THEN acc
                           ELSE <<Xor32(acc[1], m[k + 1][1]), Xor32(acc[2], m[k + 1][2]), Xor32(acc[3], m[k + 1][3]), Xor32(acc[4], m[k + 1][4])>>,
           <<0, 0, 0, 0>>, [i \in 1..128 |-> i - 1])
Pair(v) == <<<<v[1], v[2]>>, <<v[3], v[4]>>>>
Four(p) == p[1] \o p[2]
StepOf(family, v) == CASE family = "XS" -> XsStep(v) [] family = "TINY" -> TinyStep(v) [] OTHER -> Four(XoStep(Pair(v)))
StepMatrix(family) == [k \in 1..128 |-> StepOf(family, Basis(k - 1))]
Squared(m) == [k \in 1..128 |-> Image(m, m[k])]
Top(n) == CHOOSE k \in 0..63 : /\ Bit64(n, k) = 1 /\ \A j \in (k + 1)..63 : Bit64(n, j) = 0

SkipVector(family, v, n) ==
  IF n = Zero64 THEN v
  ELSE FoldLeft(LAMBDA acc, k : LET m == TLCEval(acc[1])
                                IN <<IF k = Top(n) THEN m ELSE TLCEval(Squared(m)), TLCEval(IF Bit64(n, k) = 1 THEN Image(m, acc[2]) ELSE acc[2])>>,
                <<StepMatrix(family), v>>, [i \in 1..(Top(n) + 1) |-> i - 1])[2]
SkipLinear(family, s, n) == IF family \in {"XO", "XM"} THEN Pair(SkipVector(family, Four(s), n)) ELSE SkipVector(family, s, n)

\* n counts draws, as a pair of words
Skip(ob, n) ==
  CASE ob.cls = "LCG32" -> [ob EXCEPT !.s = L32!Jump(ob.gen, ob.s, n[2])]
    [] ob.cls = "LCG64" -> [ob EXCEPT !.s = L64!Jump(ob.gen, ob.s, n)]
    [] ob.cls = "MT" ->
         LET at == Add64(n, <<0, ob.t.i>>)
         IN [ob EXCEPT !.t = [blk |-> MtBlocks(ob.t.blk, Div64(at, <<0, 624>>)[2]), i |-> Mod64(at, <<0, 624>>)[2]]]
    [] ob.cls = "SFMT" ->
         LET at == Add64(n, <<0, (2 * ob.t.i) + ob.half>>)
             in == Mod64(at, <<0, 312>>)[2]
         IN [ob EXCEPT !.t = [blk |-> SfBlocks(ob.t.blk, Div64(at, <<0, 312>>)[2]), i |-> in \div 2], !.half = in % 2]
    [] OTHER -> [ob EXCEPT !.s = SkipLinear(ob.cls, ob.s, n)]

\* "far": draws as they would be after advancing by n (the object itself stays where it is);
\* a library that steps through all of them may be given up
GivenUp == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
Far(ob, n, r) ==
  <<ob, IF r = GivenUp THEN r
        ELSE FoldLeft(LAMBDA acc, i : LET d == Do(acc[1], "next", <<>>) IN <<d[1], acc[2] \o d[2]>>,
                      <<TLCEval(Skip(ob, n)), <<>>>>, [i \in 1..3 |-> i])[2]>>
=============================================================================
