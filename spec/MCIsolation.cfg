CONSTANTS
  Lens <- CLens
  Leak <- CLeak
SPECIFICATION Spec
INVARIANT Isolated
PROPERTY Stays
CHECK_DEADLOCK FALSE
