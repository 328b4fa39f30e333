SPECIFICATION GenSpec
CONSTANTS
  SVars = {1, 2}
  Args = {1}
CHECK_DEADLOCK FALSE
