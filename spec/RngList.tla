------------------------------- MODULE RngList ------------------------------
(***************************************************************************)
(* The value list: a window of `size' consecutive draws of a generator.    *)
(*   win  the draws in the window, oldest first                            *)
(*   src  the generator, positioned right after the window                 *)
(*   pos  the reader, 0 = start of the window                              *)
(* For the linear congruential generators a window too large to write out  *)
(* is represented by the generator at its start ("base"), from which any   *)
(* draw is reached by a jump.                                              *)
(***************************************************************************)
EXTENDS Prngs

\* k consecutive draws: <<generator afterwards, draws>>
Draws(src, m, k) ==
  FoldLeft(LAMBDA acc, i : LET r == Do(acc[1], m, <<>>) IN <<r[1], Append(acc[2], r[2])>>,
           <<src, <<>>>>, Range0(k))

Jumped(ob, k) ==
  IF ob.cls = "LCG32" THEN [ob EXCEPT !.s = L32!Jump(ob.gen, ob.s, k)]
  ELSE [ob EXCEPT !.s = L64!Jump(ob.gen, ob.s, <<0, k>>)]

NewList(gen, m, size, big) ==
  IF big THEN [cls |-> "RL", m |-> m, size |-> size, pos |-> 0, big |-> TRUE, base |-> gen]
  ELSE LET d == TLCEval(Draws(gen, m, size))
       IN [cls |-> "RL", m |-> m, size |-> size, pos |-> 0, big |-> FALSE, win |-> d[2], src |-> d[1]]

\* slide the window by k draws; the reader goes back to its start
Slide(ob, k) ==
  IF ob.big THEN [ob EXCEPT !.base = Jumped(@, k), !.pos = 0]
  ELSE LET d == TLCEval(Draws(ob.src, ob.m, k))
           all == ob.win \o d[2]
       IN [ob EXCEPT !.win = SubSeq(all, k + 1, k + ob.size), !.src = d[1], !.pos = 0]

ListDo(ob, op, a) ==
  CASE op = "get" ->
         <<[ob EXCEPT !.pos = (@ + 1) % ob.size],
           IF ob.big THEN Do(Jumped(ob.base, ob.pos), ob.m, <<>>)[2] ELSE ob.win[ob.pos + 1]>>
    \* the distance may be any 32-bit word; size divides 2^32
    [] op = "skip" -> <<[ob EXCEPT !.pos = And32(Add32(@, a[1][1]), ob.size - 1)], NoResult>>
    [] op = "slide1" -> <<Slide(ob, 1), NoResult>>
    \* a slide by k is k slides by one: a slide by 0 leaves the reader alone
    [] op = "slide" -> <<IF a[1][1] = 0 THEN ob ELSE Slide(ob, a[1][1]), NoResult>>
    [] op = "refill" -> <<Slide(ob, ob.size), NoResult>>
    [] OTHER -> <<ob, Unknown>>
=============================================================================
