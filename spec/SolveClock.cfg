SPECIFICATION CSpec
CONSTANTS N = 2
  MaxTime = 4
INVARIANTS Sound
CHECK_DEADLOCK FALSE
