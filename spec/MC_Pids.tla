------------------------------- MODULE MC_Pids ------------------------------
(***************************************************************************)
(* The search for a personality value (evaluated natively) ends where      *)
(* trying one pair of draws after another (from the definition) ends.      *)
(***************************************************************************)
EXTENDS Pids

VARIABLES start, want, at
vars == <<start, want, at>>
Seeds == {0, -1, 305419896, 1103515245}
Wants == {[nature |-> n, charm |-> c[1], lead |-> c[2], ratio |-> c[3], species |-> k[1], form |-> k[2]] :
            n \in {0, 11, 24}, c \in {<<FALSE, 255, 127>>, <<TRUE, 25, 191>>, <<TRUE, 26, 31>>, <<TRUE, 25, 31>>, <<TRUE, 26, 225>>},
            k \in {<<1, 0>>, <<202, 3>>, <<201, 0>>, <<201, 27>>}}
Init == start \in Seeds /\ want \in Wants /\ at = <<FALSE, 0, start>>
Next == /\ ~at[1]
        /\ at' = Try(at, want.nature, want.charm, want.lead, want.ratio, want.species, want.form)
        /\ UNCHANGED <<start, want>>
Spec == Init /\ [][Next]_vars

Native == at[1] => FindPid(start, want.nature, want.charm, want.lead, want.ratio, want.species, want.form) = <<at[2], at[3]>>
=============================================================================
