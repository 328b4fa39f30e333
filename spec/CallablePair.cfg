SPECIFICATION PairSpec
CONSTANTS
  SVars = {1, 2}
  Args = {1}
CHECK_DEADLOCK FALSE
