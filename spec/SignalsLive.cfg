SPECIFICATION FairSpec
CONSTANTS
  Threads = {0, 1, 2}
  SigVars = {"s1", "s2"}
  HVars = {"c1", "c2", "c3", "c4", "k1", "k2", "b1", "b2"}
  SVars = {1, 2}
  Objs = {1}
  Prune = TRUE
\* ListsOK NoLostSlot NoGhostSlot OneWinner RunsOK TrackedAlive ExactlyOnce RunsInOrder ResultOK
PROPERTIES Returns
CHECK_DEADLOCK FALSE
