SPECIFICATION MCSpec
CONSTANTS
  Sigs = {1, 2}
INVARIANTS Once Runs Bulk
PROPERTIES OffForever
VIEW View
CHECK_DEADLOCK FALSE
