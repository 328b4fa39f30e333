SPECIFICATION GenSpec
VIEW View
INVARIANTS VoidEmpty
CONSTANTS
  Vars = {1, 2}
  Cells = {1, 2}
  Vals = {1, 2}
CHECK_DEADLOCK FALSE
