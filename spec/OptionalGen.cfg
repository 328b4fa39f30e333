SPECIFICATION GenSpec
CONSTANTS Vals = {1, 2}
VIEW View
CHECK_DEADLOCK FALSE
