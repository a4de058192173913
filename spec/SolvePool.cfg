SPECIFICATION Spec
INVARIANTS TypeOK Once Placed Complete
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
