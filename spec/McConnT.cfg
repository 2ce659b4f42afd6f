SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- CWorlds
  Moves <- CMoves
  Allowed <- CAllowed
  Ghost0 <- CGhost0
  Ghost <- CGhost
  Claims <- CClaims
  Core <- CCore
  Emit = TRUE
  MaxLen = 1
  Entries = 2
  Ways <- AllWays
