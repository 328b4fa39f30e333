SPECIFICATION TSpec
CONSTANTS
  Threads = {1, 2, 3}
CHECK_DEADLOCK FALSE
