SPECIFICATION TSpec
CONSTANTS
  Vars = {1, 2}
  MaxRank = 5
CHECK_DEADLOCK FALSE
