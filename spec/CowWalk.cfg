SPECIFICATION WalkSpec
CONSTANTS
  Vars = {1, 2, 3, 4}
  Refs = {1, 2}
  Vals = {1, 2}
CHECK_DEADLOCK FALSE
