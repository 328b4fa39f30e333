SPECIFICATION Spec
INVARIANTS Consistent Transitive
CONSTANTS
  Vars = {1, 2, 3}
  MaxRank = 5
CHECK_DEADLOCK FALSE
