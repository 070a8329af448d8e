SPECIFICATION GenSpec
CONSTANTS
  Steps = 60
  Battery = 12
  ObsPct = 15
  MorSet = {TRUE, FALSE}
  AppSet = {TRUE, FALSE}
  DimsSet = {0, 1, 2}
  Keys = {1, 2, 3, 4}
  OrdSet <- OrdDef
  MaxH = 2
  Filters = TRUE
  Mix <- MixDef
  Qs <- QsDef
INVARIANTS GenReadIsLogical GenLiveOnce GenOnlyCommitted GenIncrExact GenReadOptimized
CHECK_DEADLOCK FALSE
