SPECIFICATION Spec
INVARIANTS Clear OneMeaning
CHECK_DEADLOCK FALSE
