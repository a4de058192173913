SPECIFICATION Spec
CONSTANTS
  H = 2
  V = {0, 100}
INVARIANTS StackBalanced MapConsistent Monotones PointsSplit CandlesChain
CHECK_DEADLOCK FALSE
