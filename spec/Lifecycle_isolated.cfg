SPECIFICATION Spec
CONSTANTS
  Elems = {"e1", "e2", "e3"}
  Facs = {"f1"}
  FacOf <- MC_FacOf
  SCOPE = "isolated"
  CLEANUP = TRUE
  NV = 3
  REENTRANT = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK ConnectedFresh NoStrayWork RefCount OpenWhileConnected NeverClosedWithoutCleanup NoSubscriptionOnClosedAdapter IsolatedStopped
PROPERTIES ZombieFrozen Independent OutFrozen OneRenderPerChange
CHECK_DEADLOCK FALSE
