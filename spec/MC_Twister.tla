----------------------------- MODULE MC_Twister -----------------------------
(***************************************************************************)
(* The block machine of Twister, under every interleaving of draws,        *)
(* advances, shuffles and re-initialisation, always delivers the word that *)
(* the stream recurrence assigns to the current position.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS N, Mid, Modulus, MaxPos
\* an arbitrary non-symmetric twist
Tw(a, b, c, d, e) == (a + 2 * b + 3 * c + d + 2 * e + 1) % Modulus
T == INSTANCE Twister WITH N <- N, Mid <- Mid, Twist <- Tw

VARIABLES seed, obj, pos, out, hist
vars == <<seed, obj, pos, out, hist>>
Seeds == [1..N -> 0..Modulus-1]

\* the raw words of a seed, straight from the recurrence
RawSeq(s) == FoldLeft(LAMBDA x, k : Append(x, Tw(x[k], x[k+1], x[k+Mid], x[k+N-2], x[k+N-1])),
                      s, [k \in 1..MaxPos+1 |-> k])
\* the n-th output (0-based) is the raw word N places after the seed block
Stream(s) == LET x == RawSeq(s) IN [k \in 0..MaxPos |-> x[N + k + 1]]

Init == /\ seed \in Seeds /\ obj = T!Fresh(seed) /\ pos = 0 /\ out = -1
        /\ hist = Stream(seed)
Draw == /\ pos < MaxPos
        /\ LET u == T!Settle(obj) IN out' = T!Peek(u) /\ obj' = T!Drop(u)
        /\ pos' = pos + 1 /\ UNCHANGED <<seed, hist>>
Advance(k) == /\ pos + k <= MaxPos /\ obj' = T!Advance(obj, k)
              /\ pos' = pos + k /\ out' = -1 /\ UNCHANGED <<seed, hist>>
\* strictly inside a block, shuffling goes to the start of the next block
ShuffleOp == LET target == (pos \div N + 1) * N IN
             /\ pos % N # 0 /\ target <= MaxPos
             /\ obj' = T!Shuffle(obj) /\ pos' = target /\ out' = -1
             /\ UNCHANGED <<seed, hist>>
FirstShuffle == /\ pos = 0 /\ obj = T!Fresh(seed) /\ obj' = T!Shuffle(obj)
                /\ out' = -1 /\ UNCHANGED <<pos, seed, hist>>
ReInit == /\ pos > 0 /\ obj' = T!Fresh(seed) /\ pos' = 0 /\ out' = -1 /\ UNCHANGED <<seed, hist>>
Next == Draw \/ ShuffleOp \/ FirstShuffle \/ ReInit \/ \E k \in 0..2*N+1 : Advance(k)
Spec == Init /\ [][Next]_vars
DeliversStream == out # -1 => out = hist[pos - 1]
WillDeliver == pos <= MaxPos => T!Peek(T!Settle(obj)) = hist[pos]
=============================================================================
