SPECIFICATION WalkSpec
CONSTANTS
  SVars = {1, 2}
  Args = {1, 2, 3}
CHECK_DEADLOCK FALSE
