SPECIFICATION Spec
CONSTANTS
  Vars = {1, 2, 3}
  Refs = {1, 2}
  Vals = {1, 2}
INVARIANTS TypeOK HoldOK ValOK
PROPERTIES Isolation RefStable CopyIffShared
CHECK_DEADLOCK FALSE
