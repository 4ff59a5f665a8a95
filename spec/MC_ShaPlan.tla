----------------------------- MODULE MC_ShaPlan -----------------------------
(***************************************************************************)
(* Reusing one search object.  The 80-word schedule is split between       *)
(* "precompute" (words that do not depend on time and button) and "hash"   *)
(* (the rest).  Words are symbolic: a set of <<message word, rotation,     *)
(* version>>, exclusive or is symmetric difference.  mem is what the       *)
(* object remembers; it may hold words of an earlier date, timer, time or  *)
(* button.  Invariant: whenever a hash is allowed (module Sha1's rule: the *)
(* last precompute saw the current date and timer), it uses exactly the    *)
(* schedule of the current message.  The behaviours of this model are also *)
(* replayed into the real object (hist, printed when Emit).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Depth, Emit
Fields == [date |-> 8, time |-> 9, timer |-> 5, button |-> 12]
Names == {"date", "time", "timer", "button"}
Pre == <<16, 19, 21, 22, 24, 27, 30>>
Rest == <<17, 20, 23, 25, 26, 28, 29, 31>>
\* word 18 does not depend on any field and is filled in once

VARIABLES ver, mem, pre, ok, hist
vars == <<ver, mem, pre, ok, hist>>

Xor(a, b) == (a \ b) \cup (b \ a)
Rot1(a) == {<<x[1], x[2] + 1, x[3]>> : x \in a}
Field(i) == CHOOSE f \in Names : Fields[f] = i
Msg(v, i) == {<<i, 0, IF \E f \in Names : Fields[f] = i THEN v[Field(i)] ELSE 0>>}
Expand(s, t) == Rot1(Xor(Xor(s[t - 3], s[t - 8]), Xor(s[t - 14], s[t - 16])))
Ideal(v) == FoldLeft(LAMBDA s, t : s @@ (t :> Expand(s, t)),
                     [i \in 0..15 |-> Msg(v, i)], [i \in 1..16 |-> i + 15])
Fill(m, plan) == FoldLeft(LAMBDA s, t : [s EXCEPT ![t] = Expand(s, t)], m, plan)

Unset == {<<-1, 0, 0>>}
Init == /\ ver = [f \in Names |-> 1]
        /\ mem = [i \in 0..31 |-> IF i < 16 THEN Msg([f \in Names |-> 1], i) ELSE
                                  IF i = 18 THEN Ideal([f \in Names |-> 1])[18] ELSE Unset]
        /\ pre = <<>> /\ ok = TRUE /\ hist = <<>>

Set(f, v) == /\ ver' = [ver EXCEPT ![f] = v]
             /\ mem' = [mem EXCEPT ![Fields[f]] = Msg(ver', Fields[f])]
             /\ hist' = Append(hist, <<f, v>>)
             /\ UNCHANGED <<pre, ok>>
Precompute == /\ mem' = Fill(mem, Pre)
              /\ pre' = <<ver.date, ver.timer>>
              /\ hist' = Append(hist, <<"pre", 0>>)
              /\ UNCHANGED <<ver, ok>>
Hash == /\ pre = <<ver.date, ver.timer>>
        /\ mem' = Fill(mem, Rest)
        /\ ok' = (mem' = Ideal(ver))
        /\ hist' = Append(hist, <<"hash", 0>>)
        /\ UNCHANGED <<ver, pre>>
Next == (\E f \in Names, v \in {1, 2} : Set(f, v)) \/ Precompute \/ Hash
Spec == Init /\ [][Next]_vars

\* without the history, for the unbounded model
Abstract == <<ver, mem, pre, ok>>
Right == ok
\* the first nine rounds, which precompute also runs, need message words 0 to 8 only
Bound == Len(hist) < Depth
Report == ~Emit \/ Len(hist) # Depth \/ hist[Depth][1] # "hash" \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
