----------------------------- MODULE MC_Choice ------------------------------
(***************************************************************************)
(* Choosing by weight (Gen3 and Arceus).                                   *)
(* - a hundred equally likely draws give every Gen 3 slot exactly its odds *)
(* - a slot of weight zero is never chosen while another has any, and when *)
(*   the total is a power of two, equally spaced draws fall into the slots *)
(*   in exact proportion to their weights                                  *)
(***************************************************************************)
EXTENDS Arceus, Gen3

CONSTANTS MaxWeight, MaxSlots

VARIABLES enc, ws
vars == <<enc, ws>>

Init == enc \in {1, RockSmash, Surfing, OldRod, GoodRod, SuperRod} /\ ws = <<>>
Next == enc = 1 /\ Len(ws) < MaxSlots /\ (\E x \in 0..MaxWeight : ws' = Append(ws, <<0, x>>)) /\ UNCHANGED enc
Spec == Init /\ [][Next]_vars

ExactOdds == ws # <<>> \/
  /\ \A k \in 1..Len(Odds(enc)) : Cardinality({v \in 0..99 : SlotNumber(enc, v) = k}) = Odds(enc)[k]
  /\ \A v \in 0..98 : SlotNumber(enc, v) <= SlotNumber(enc, v + 1)
  /\ Len(Odds(enc)) = Category(enc)[2]

Total == FoldLeft(LAMBDA acc, x : acc + x[2], 0, ws)
Spaced == 16
Pick(k) == Chosen(ws, Totals(ws), TRUE, k * (16777216 \div Spaced))
Weighted ==
  Total = 0 \/
  /\ \A k \in 0..(Spaced - 1) : \E i \in 1..Len(ws) : Pick(k) = {i} /\ ws[i][2] > 0
  /\ Total \in {1, 2, 4, 8, 16} =>
       \A i \in 1..Len(ws) : Cardinality({k \in 0..(Spaced - 1) : Pick(k) = {i}}) * Total = ws[i][2] * Spaced
\* rounding may move a draw beside a boundary, but never to weight zero
Rounded ==
  Total = 0 \/ \A k \in 0..(Spaced - 1) :
    LET c == Chosen(ws, Totals(ws), FALSE, k * (16777216 \div Spaced)) IN Pick(k) \subseteq c /\ \A i \in c : ws[i][2] > 0
=============================================================================
