SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Starts = {"none", "part", "whole"}
  MaxFaults = 2
  Trusting = TRUE
  InPlace = TRUE
  History = FALSE
INVARIANTS Right
PROPERTIES Returns
CHECK_DEADLOCK FALSE
