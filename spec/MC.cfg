SPECIFICATION Spec
CONSTANTS
  Parts = {1}
  Keys = {1, 2}
  Ords = {1, 2}
  MaxClock = 6
  MaxFid = 2
  Mor = TRUE
  App = FALSE
  Kinds = {"insert", "update", "compact", "rollback"}
  MaxPending = 2
  MaxBlocks = 3
  WithHandle = FALSE
INVARIANTS ReadIsLogical LiveOnce OnlyCommitted IncrExact ReadOptimizedIsBase
PROPERTY HandleStable
CHECK_DEADLOCK FALSE
