----------------------------- MODULE MC_Message -----------------------------
(***************************************************************************)
(* The date and time words of the message determine date and time: every   *)
(* day of the console's calendar, every minute of a day.                   *)
(***************************************************************************)
EXTENDS Sha1

VARIABLES what, y, m, d
vars == <<what, y, m, d>>
Init == \/ what = "date" /\ y \in 2000..2099 /\ m = 1 /\ d = 1
        \/ what = "time" /\ y \in 0..23 /\ m = 0 /\ d = 0
Next == /\ \/ what = "date" /\ d < 31 /\ d' = d + 1 /\ m' = m
           \/ what = "date" /\ d = 31 /\ m < 12 /\ d' = 1 /\ m' = m + 1
           \/ what = "time" /\ d = 0 /\ d' \in {9, 10, 59} /\ m' = m
           \/ what = "time" /\ d = 59 /\ m < 59 /\ d' = 0 /\ m' = m + 1
        /\ UNCHANGED <<what, y>>
Spec == Init /\ [][Next]_vars

Ob(ds) == [nazo |-> <<0, 0, 0, 0, 0>>, ds |-> ds, mac |-> <<0, 0>>, soft |-> FALSE, vframe |-> 0, gx |-> 0,
           button |-> <<0>>, timer |-> <<0, 0>>,
           date |-> IF what = "date" THEN <<y, m, d, d % 7>> ELSE <<2000, 1, 1, 6>>,
           time |-> IF what = "time" THEN <<y, m, d>> ELSE <<0, 0, 0>>]
\* two decimal digits in a byte
TwoDigits(b) == b % 16 < 10 /\ b \div 16 < 10
Unbcd(b) == (10 * (b \div 16)) + (b % 16)
Date == what = "date" =>
  LET w == Message(Ob("DS"))[9]
  IN /\ \A k \in 1..3 : TwoDigits(Byte(w, k))
     /\ <<2000 + Unbcd(Byte(w, 3)), Unbcd(Byte(w, 2)), Unbcd(Byte(w, 1)), Byte(w, 0)>> = <<y, m, d, d % 7>>
Time == what = "time" => \A ds \in {"DS", "DSI", "DS3"} :
  LET w == Message(Ob(ds))[10]
      pm == y >= 12 /\ ds # "DS3"
      hour == Byte(w, 3) - (IF pm THEN 64 ELSE 0)
  IN /\ \A b \in {hour, Byte(w, 2), Byte(w, 1)} : TwoDigits(b)
     /\ <<Unbcd(hour), Unbcd(Byte(w, 2)), Unbcd(Byte(w, 1)), Byte(w, 0)>> = <<y, m, d, 0>>
\* one block: 52 bytes, the end mark and the length
Shape == LET w == Message(Ob("DS")) IN Len(w) = 16 /\ w[14] = MinInt /\ w[16] = 8 * 52
=============================================================================
