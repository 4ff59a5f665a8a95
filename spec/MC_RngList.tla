----------------------------- MODULE MC_RngList -----------------------------
(***************************************************************************)
(* The value list as a ring buffer (slots, head, reader) refines the       *)
(* sliding window of RngList: a window start and a reader position.  The   *)
(* k-th draw of the generator is the number k.                             *)
(* Behaviours (hist) are also replayed into real value lists.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Sizes, Depth, Emit

VARIABLES size,              \* fixed
          slot, head, ptr,   \* ring buffer
          drawn,             \* draws taken from the generator
          start, pos,        \* window
          got, hist
vars == <<size, slot, head, ptr, drawn, start, pos, got, hist>>

Init == /\ size \in Sizes
        /\ slot = [i \in 0..(size - 1) |-> i] /\ head = 0 /\ ptr = 0 /\ drawn = size
        /\ start = 0 /\ pos = 0 /\ got = <<>> /\ hist = <<>>

Log(op) == hist' = Append(hist, op) /\ size' = size
Get == /\ got' = Append(got, <<slot[ptr], start + pos>>)
       /\ ptr' = (ptr + 1) % size /\ pos' = (pos + 1) % size
       /\ Log(<<"get", 0>>) /\ UNCHANGED <<slot, head, drawn, start>>
Skip(k) == /\ ptr' = (ptr + k) % size
           \* the reader moves within the window, cyclically
           /\ pos' = (pos + k) % size
           /\ Log(<<"skip", k>>) /\ UNCHANGED <<slot, head, drawn, start, got>>
\* k single slides of the ring; the window moves by k at once
Ring(k) == [i \in 0..(size - 1) |->
              LET hits == {j \in 0..(k - 1) : (head + j) % size = i}
              IN IF hits = {} THEN slot[i] ELSE drawn + (CHOOSE j \in hits : \A x \in hits : x <= j)]
SlideBy(k, name) == /\ slot' = Ring(k) /\ head' = (head + k) % size
                    /\ ptr' = IF k = 0 THEN ptr ELSE (head + k) % size
                    /\ drawn' = drawn + k
                    /\ start' = start + k /\ pos' = IF k = 0 THEN pos ELSE 0
                    /\ Log(<<name, k>>) /\ UNCHANGED got
Refill == /\ slot' = [i \in 0..(size - 1) |-> drawn + i] /\ head' = 0 /\ ptr' = 0 /\ drawn' = drawn + size
          /\ start' = start + size /\ pos' = 0
          /\ Log(<<"refill", 0>>) /\ UNCHANGED got

Next == /\ Len(hist) < Depth
        /\ \/ Get
           \/ \E k \in {1, size - 1, size} : Skip(k)
           \/ SlideBy(1, "slide1")
           \/ \E k \in {0, 1, 2, size + 1} : SlideBy(k, "slide")
           \/ Refill
Spec == Init /\ [][Next]_vars

\* the window holds the next `size' draws from its start, in ring order
Window == \A i \in 0..(size - 1) : slot[(head + i) % size] = start + i
Reader == slot[ptr] = start + pos
Reads == \A i \in 1..Len(got) : got[i][1] = got[i][2]
Supply == drawn = start + size
View == <<size, slot, head, ptr, drawn, start, pos, got>>
Report == ~Emit \/ Len(hist) # Depth \/ PrintT("BEHAVIOUR " \o ToJson([size |-> size, ops |-> hist]))
=============================================================================
