SPECIFICATION Spec
CONSTANTS
  H = 1
  V = {0, 100, 200}
INVARIANTS StackBalanced MapConsistent Monotones PointsSplit CandlesChain
CHECK_DEADLOCK FALSE
