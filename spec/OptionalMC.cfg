SPECIFICATION MCSpec
CONSTANTS Vals = {1, 2}
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
