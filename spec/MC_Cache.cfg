SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Starts = {"none", "part", "whole"}
  MaxFaults = 2
  Trusting = FALSE
  InPlace = FALSE
  History = FALSE
INVARIANTS Right Whole
PROPERTIES Stays Returns
CHECK_DEADLOCK FALSE
