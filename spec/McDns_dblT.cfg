SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- NWorlds
  Moves <- NMoves
  Allowed <- NAllowed
  Ghost0 <- NGhost0
  Ghost <- NGhost
  Claims <- NClaims
  Core <- NCore
  Emit = TRUE
  MaxLen = 1
  Family = "dbl"
  Rich = TRUE
