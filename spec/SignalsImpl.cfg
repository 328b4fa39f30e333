SPECIFICATION Spec
CONSTANTS
  Threads = {0, 1, 2}
  SigVars = {"s1", "s2"}
  HVars = {"c1", "c2", "c3", "c4"}
INVARIANTS IndexOK CommittedOK NoLockInUserCode Invs
PROPERTIES Refines
