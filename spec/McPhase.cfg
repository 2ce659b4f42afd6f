SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- HWorlds
  Moves <- HMoves
  Allowed <- HAllowed
  Ghost0 <- HGhost0
  Ghost <- HGhost
  Claims <- HClaims
  Core <- HCore
  Emit = TRUE
  MaxLen = 1
  Ops1 = {1, 7, 9, 14}
