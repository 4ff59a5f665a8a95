------------------------------ MODULE Twister ------------------------------
(***************************************************************************)
(* The block structure shared by MT19937 and SFMT19937: an endless stream  *)
(* of raw words x[0], x[1], ... in which                                   *)
(*     x[k+N] = Twist(x[k], x[k+1], x[k+Mid], x[k+N-2], x[k+N-1])          *)
(* kept as one block of N consecutive words and a read position.           *)
(* MT19937 ignores the last two arguments, SFMT19937 the second.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS N, Mid, Twist(_, _, _, _, _)

\* the next block, word by word; acc holds the part of the new block already known
NextBlock(b) ==
  FoldLeft(LAMBDA acc, j :
             LET at(k) == IF k <= N THEN b[k] ELSE acc[k - N]      \* k: 1-based over old then new
             IN Append(acc, Twist(at(j), at(j + 1), at(j + Mid), at(j + N - 2), at(j + N - 1))),
           <<>>, [j \in 1..N |-> j])

\* abstract object: blk, the current block, and i, how many of its words were read
Fresh(seedBlock) == [blk |-> seedBlock, i |-> N]
Shuffle(t) == [blk |-> NextBlock(t.blk), i |-> 0]
Settle(t) == IF t.i >= N THEN Shuffle(t) ELSE t          \* a word is available
Peek(t) == t.blk[t.i + 1]
Drop(t) == [t EXCEPT !.i = @ + 1]
\* advance by k words: whole blocks first
Advance(t, k) ==
  LET q == (t.i + k) \div N
      u == FoldLeft(LAMBDA acc, j : Shuffle(acc), t, [j \in 1..q |-> j])
  IN [u EXCEPT !.i = (t.i + k) % N]
=============================================================================
