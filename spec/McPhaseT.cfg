SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- HWorlds
  Moves <- HMoves
  Allowed <- HAllowed
  Ghost0 <- HGhost0
  Ghost <- HGhost
  Claims <- HClaims
  Core <- HCore
  Emit = TRUE
  MaxLen = 1
  Ops1 = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}
