SPECIFICATION Spec
INVARIANTS Recognised Order Only
CHECK_DEADLOCK FALSE
