SPECIFICATION WalkSpec
CONSTANTS
  Vars = {1, 2, 3}
  Cells = {1, 2}
  Vals = {1, 2}
CHECK_DEADLOCK FALSE
