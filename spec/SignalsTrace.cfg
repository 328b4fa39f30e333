SPECIFICATION TraceSpec
CONSTANTS
  Threads = {0, 1, 2, 3}
  SigVars = {"s1", "s2", "s3"}
  HVars = {"c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "k1", "k2", "k3", "k4", "b1", "b2", "b3"}
  SVars = {1, 2, 3, 4}
  Objs = {1, 2, 3, 4, 5, 6}
  Prune = TRUE
INVARIANTS ListsOK NoLostSlot NoGhostSlot OneWinner RunsOK TrackedAlive
CHECK_DEADLOCK FALSE
