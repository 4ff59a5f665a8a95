------------------------------ MODULE MC_Cache ------------------------------
(***************************************************************************)
(* The on-disk cache of a loader, shared by several processes that may be  *)
(* interrupted or find the disk full at any of their file operations.      *)
(* A loader reads the cache file; when that holds no whole value it        *)
(* computes the value, writes it to a file of its own and moves that into  *)
(* place.                                                                  *)
(*   Trusting: readers take a part of a value for a value   (wrong design) *)
(*   InPlace:  writers write into the cache file itself                    *)
(* With Trusting = FALSE the invariants hold whether or not InPlace.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Procs, Starts, MaxFaults, Trusting, InPlace, History

VARIABLES start,      \* how the cache file was found: "none", "part", "whole"
          disk,       \* the cache file
          own,        \* each process's own file
          pc, seen, result, full, faults, hist
vars == <<start, disk, own, pc, seen, result, full, faults, hist>>

Init ==
  /\ start \in Starts
  /\ disk = start
  /\ own = [p \in Procs |-> "none"]
  /\ pc = [p \in Procs |-> "open"]
  /\ seen = [p \in Procs |-> "none"]
  /\ result = [p \in Procs |-> "none"]
  /\ full = [p \in Procs |-> FALSE]
  /\ faults = 0
  /\ hist = <<>>

Log(p, what) == hist' = IF History THEN Append(hist, <<p - 1, what>>) ELSE hist
Alive(p) == pc[p] \notin {"done", "dead"}
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Return(p, v) == Goto(p, "done") /\ result' = [result EXCEPT ![p] = v]

\* the file as the reader opened it stays as it is when another is moved into place
Open(p) ==
  /\ pc[p] = "open" /\ Log(p, "go")
  /\ seen' = [seen EXCEPT ![p] = disk]
  /\ Goto(p, IF disk = "none" THEN "create" ELSE "read")
  /\ UNCHANGED <<start, disk, own, result, full, faults>>
Read(p) ==
  /\ pc[p] = "read" /\ Log(p, "go")
  /\ LET found == IF InPlace THEN disk ELSE seen[p]
     IN CASE found = "whole" -> Return(p, "right")
          [] found # "whole" /\ Trusting -> Return(p, "wrong")
          [] OTHER -> Goto(p, "create") /\ UNCHANGED result
  /\ UNCHANGED <<start, disk, own, seen, full, faults>>
Create(p) ==
  /\ pc[p] = "create" /\ ~full[p] /\ Log(p, "go") /\ Goto(p, "write")
  /\ IF InPlace THEN disk' = "part" /\ UNCHANGED own ELSE own' = [own EXCEPT ![p] = "part"] /\ UNCHANGED disk
  /\ UNCHANGED <<start, seen, result, full, faults>>
Write(p) ==
  /\ pc[p] = "write" /\ ~full[p] /\ Log(p, "go")
  /\ IF InPlace THEN disk' = "whole" /\ Return(p, "right") /\ UNCHANGED own
     ELSE own' = [own EXCEPT ![p] = "whole"] /\ Goto(p, "move") /\ UNCHANGED <<disk, result>>
  /\ UNCHANGED <<start, seen, full, faults>>
Move(p) ==
  /\ pc[p] = "move" /\ ~full[p] /\ Log(p, "go")
  /\ disk' = own[p] /\ own' = [own EXCEPT ![p] = "none"] /\ Return(p, "right")
  /\ UNCHANGED <<start, seen, full, faults>>

\* a process ends before an operation, or in the middle of its write
Kill(p) ==
  /\ Alive(p) /\ faults < MaxFaults /\ faults' = faults + 1
  /\ Goto(p, "dead") /\ Log(p, "kill")
  /\ UNCHANGED <<start, disk, own, seen, result, full>>
Torn(p) ==
  /\ pc[p] = "write" /\ faults < MaxFaults /\ faults' = faults + 1
  /\ Goto(p, "dead") /\ Log(p, "torn")
  /\ UNCHANGED <<start, disk, own, seen, result, full>>
\* no space: from now on (full), only now (full1), or in the middle of the write (short)
Starve(p, what) ==
  /\ pc[p] \in {"create", "write", "move"} /\ faults < MaxFaults /\ faults' = faults + 1
  /\ what = "short" => pc[p] = "write"
  /\ Log(p, what)
  /\ full' = [full EXCEPT ![p] = what # "full1"]
  /\ own' = [own EXCEPT ![p] = "none"] /\ Return(p, "right")
  /\ UNCHANGED <<start, disk, seen>>

Step(p) == Open(p) \/ Read(p) \/ Create(p) \/ Write(p) \/ Move(p)
Fault(p) == Kill(p) \/ Torn(p) \/ \E what \in {"full", "full1", "short"} : Starve(p, what)
Next == \E p \in Procs : Step(p) \/ Fault(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

------------------------------------------------------------------------------
\* every load that returns gives the right value
Right == \A p \in Procs : pc[p] = "done" => result[p] = "right"
\* a cache file once whole stays whole, and none is ever left in parts
Whole == disk = "part" => start = "part"
Stays == [][disk = "whole" => disk' = "whole"]_vars
\* every loader that is not killed returns
Returns == \A p \in Procs : <>(pc[p] \in {"done", "dead"})

Over == \A p \in Procs : ~Alive(p)
Emit == (History /\ Over) => PrintT("BEHAVIOUR " \o ToJson([start |-> start, steps |-> hist]))
=============================================================================
