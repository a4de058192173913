CONSTANTS
  Lens <- TLens
  Leak = FALSE
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
