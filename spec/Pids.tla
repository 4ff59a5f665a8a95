-------------------------------- MODULE Pids --------------------------------
(***************************************************************************)
(* Gen 3 draws, and the search for a personality value: pairs of draws     *)
(* until one pleases.  The class Pids (Pids.java), when on TLC's class     *)
(* path, evaluates FindPid natively; MC_Pids checks it against the         *)
(* definitions here.                                                       *)
(***************************************************************************)
EXTENDS Prngs

Adv(s) == L32!Step(PokeGen, s)          \* one draw
Val(s) == Hi16(s)                       \* the 16-bit value of the draw that led to s
Draw(s, mx) == Val(s) % mx

CuteCharmF == 25
\* Unown's letter: the two low bits of each byte
Letter(pid) == ((64 * (Byte(pid, 3) % 4)) + (16 * (Byte(pid, 2) % 4)) + (4 * (Byte(pid, 1) % 4)) + (Byte(pid, 0) % 4)) % 28

\* whether a PID is accepted
PidOk(pid, nature, charm, lead, ratio, species, form) ==
  /\ Mod32(pid, 25) = nature
  /\ charm => IF lead = CuteCharmF THEN And32(pid, 255) >= ratio ELSE And32(pid, 255) < ratio
  /\ species = 201 => Letter(pid) = form
\* tries draw pairs, low half first; in blocks to keep the recursion shallow
Try(acc, nature, charm, lead, ratio, species, form) ==
  IF acc[1] THEN acc
  ELSE LET s1 == Adv(acc[3])
           s2 == Adv(s1)
           pid == Or32(Val(s1), Shl32(Val(s2), 16))
       IN TLCEval(<<PidOk(pid, nature, charm, lead, ratio, species, form), pid, s2>>)
RECURSIVE FindPid(_, _, _, _, _, _, _)
FindPid(s, nature, charm, lead, ratio, species, form) ==
  LET r == FoldLeft(LAMBDA acc, i : Try(acc, nature, charm, lead, ratio, species, form), <<FALSE, 0, s>>, Range0(40))
  IN IF r[1] THEN <<r[2], r[3]>> ELSE FindPid(r[3], nature, charm, lead, ratio, species, form)
=============================================================================
