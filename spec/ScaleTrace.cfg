SPECIFICATION TSpec
CONSTANTS
  Sigs = {1, 2}
CHECK_DEADLOCK FALSE
