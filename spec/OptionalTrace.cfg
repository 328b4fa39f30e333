SPECIFICATION TSpec
CONSTANTS Vals = {1, 2}
CHECK_DEADLOCK FALSE
