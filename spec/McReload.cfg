SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- RWorlds
  Moves <- RMoves
  Allowed <- RAllowed
  Ghost0 <- RGhost0
  Ghost <- RGhost
  Claims <- RClaims
  Core <- RCore
  Emit = TRUE
  MaxLen = 5
