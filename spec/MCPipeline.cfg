SPECIFICATION Spec
INVARIANTS Sound Needed Exact Grouping
CHECK_DEADLOCK FALSE
