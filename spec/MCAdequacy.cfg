SPECIFICATION Spec
INVARIANTS Capacity NoCheaper Conserved
CHECK_DEADLOCK FALSE
