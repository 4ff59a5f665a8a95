----------------------------- MODULE MC_Bounded -----------------------------
(***************************************************************************)
(* Bounded draws stay below their maximum, for every 16-bit maximum and    *)
(* for corner values of 32-bit ones; the two order-preserving formulas are *)
(* monotone; the remainder takes every value equally often or once more.   *)
(***************************************************************************)
EXTENDS Prngs, FiniteSets

CONSTANT Top
VARIABLE mx
Init0 == mx = 1
Next0 == mx < Top /\ mx' = mx + 1
Spec == Init0 /\ [][Next0]_mx

Draws == {0, 1, 2, 255, 256, 4095, 32766, 32767, 32768, 65534, 65535} \cup {v \in {mx - 1, mx, mx + 1, (2 * mx) - 1, 2 * mx, 65535 - mx, 65536 - mx} : v >= 0 /\ v < 65536}
InRange == \A v \in Draws : \A dist \in {"mod", "div"} : Bounded16(dist, v, mx) \in 0..(mx - 1)
Monotone == \A v \in Draws : v < 65535 => Bounded16("div", v, mx) <= Bounded16("div", v + 1, mx)
Least0 == Bounded16("mod", 0, mx) = 0 /\ Bounded16("div", 0, mx) = 0 /\ Bounded16("mod", mx - 1, mx) = mx - 1
\* 32-bit: the maximum mx and its mirror images
Wide == {mx, Neg32(mx), Shl32(mx, 16), Xor32(mx, MinInt)} \ {0}
Shifted == \A m \in Wide : \A v \in {0, 1, MinInt, 2147483647, -1, -2, mx, Shl32(mx, 15)} :
             /\ Lt32(MulHi32(v, m), m)
             /\ Lt32(Mod32(v, m), m)
             /\ MulHi32(-1, m) = Sub32(m, 1)
=============================================================================
