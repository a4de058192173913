CONSTANT Val <- Catalogue
SPECIFICATION Spec
INVARIANTS Faithful
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
