CONSTANT Val <- Catalogue
SPECIFICATION Spec
INVARIANTS Healthy HandlesLive
PROPERTIES Framed
CHECK_DEADLOCK FALSE
