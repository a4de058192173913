SPECIFICATION Spec
INVARIANTS WellFormed
CHECK_DEADLOCK FALSE
