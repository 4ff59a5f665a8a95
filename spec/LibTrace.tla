------------------------------ MODULE LibTrace ------------------------------
(***************************************************************************)
(* Replays recorded histories of the real library against Library.         *)
(* A history is a sequence of events                                       *)
(*   [o |-> object, op |-> call, a |-> arguments, r |-> result, s |-> state]*)
(* A history is a behaviour of the specification iff every event matches   *)
(* the one transition the specification allows.  A mismatch prints a       *)
(* REJECT tuple and ends that history.  TLC explores all histories at once;*)
(* its state count tells how many events were accepted.                    *)
(***************************************************************************)
EXTENDS Library, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, objs
vars == <<tr, l, objs>>
View == <<tr, l>>

Init == tr \in 1..Len(Traces) /\ l = 1 /\ objs = <<>>

Put(o, ob) == IF o <= Len(objs) THEN [objs EXCEPT ![o] = ob] ELSE Append(objs, ob)

Next ==
  /\ l <= Len(Traces[tr])
  /\ LET e == Traces[tr][l]
         w == TLCEval(CASE e.op = "new" -> New(e.c, e.a)
                        [] e.op = "take" -> Take(objs[e.o], objs[e.a[1][1]])
                        [] e.op \in {"crash", "hang"} -> <<[cls |-> "none"], Unknown>>
                        [] OTHER -> Call(objs[e.o], e.op, e.a, e.r))
         sees == IF e.s = <<>> THEN <<>> ELSE Observe(w[1])
     IN IF w[2] = e.r /\ sees = e.s
        THEN objs' = Put(e.o, w[1])
        ELSE PrintT("REJECT " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(<<w[2], sees>>)) /\ FALSE
  /\ l' = l + 1
  /\ tr' = tr

Spec == Init /\ [][Next]_vars
=============================================================================
