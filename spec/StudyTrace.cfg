CONSTANT Val <- Catalogue
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
