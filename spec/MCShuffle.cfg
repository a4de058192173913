CONSTANTS Names <- NamesV
 Scen <- ScenV
 Nb = 2
 Workers = {"w1", "w2"}
SPECIFICATION Spec
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
