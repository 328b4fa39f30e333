SPECIFICATION GenSpec
CONSTANTS
  Vars = {1, 2, 3}
  Refs = {1}
  Vals = {1, 2}
VIEW View
CHECK_DEADLOCK FALSE
