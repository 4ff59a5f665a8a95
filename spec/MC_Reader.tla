------------------------------ MODULE MC_Reader -----------------------------
(***************************************************************************)
(* Positions of a block reader (MT, SFMT) under draws, advances, shuffles  *)
(* and re-initialisation: i words of the current block are read, block N   *)
(* means "a new block is due".  Invariant: block number and i account for  *)
(* the stream position, whatever the order of calls.  The behaviours are   *)
(* replayed into the real generators, with N standing for 624 or 312.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N, Depth, Emit
VARIABLES blocks, i, pos, fresh, hist
vars == <<blocks, i, pos, fresh, hist>>

\* blocks = number of shuffles since the seed
Init == blocks = 0 /\ i = N /\ pos = 0 /\ fresh = TRUE /\ hist = <<>>
Log(op, q, d) == hist' = Append(hist, <<op, q, d>>)
\* distances q blocks + d words, or to d words around the next boundary (q = -1)
Dist(q, d) == IF q >= 0 THEN (q * N) + d ELSE (N - (pos % N)) + d

\* drawing k words one at a time
Draw(q, d) ==
  LET k == Dist(q, d)
      n == (i + k - 1) \div N
  IN /\ k > 0
     /\ blocks' = blocks + n /\ i' = (i + k) - (n * N) /\ pos' = pos + k /\ fresh' = FALSE
     /\ Log("nexts", q, d)
\* an advance generates the blocks it passes, and the one it ends in front of
Advance(q, d) ==
  LET k == Dist(q, d)
      n == (i + k) \div N
  IN /\ k >= 0
     /\ blocks' = blocks + n /\ i' = (i + k) % N /\ pos' = pos + k /\ fresh' = FALSE
     /\ Log("adv", q, d)
Shuffle == /\ fresh \/ pos % N # 0
           /\ blocks' = blocks + 1 /\ i' = 0 /\ fresh' = FALSE
           /\ pos' = IF pos = 0 THEN 0 ELSE (pos \div N + 1) * N
           /\ Log("shuffle", 0, 0)
ReInit == blocks' = 0 /\ i' = N /\ pos' = 0 /\ fresh' = TRUE /\ Log("reinit", 0, 0)

Steps == {<<0, 1>>, <<-1, -1>>, <<-1, 0>>, <<1, 0>>, <<1, 1>>}
Next == /\ Len(hist) < Depth
        /\ \/ \E s \in Steps : Draw(s[1], s[2])
           \/ \E s \in Steps \cup {<<0, 0>>, <<2, 0>>, <<-1, 1>>} : Advance(s[1], s[2])
           \/ Shuffle
           \/ ReInit
Spec == Init /\ [][Next]_vars
\* word `pos' of the stream is word i of block `blocks' (block 1 holds words 0..N-1)
Position == pos = ((blocks - 1) * N) + i
Report == ~Emit \/ Len(hist) # Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
