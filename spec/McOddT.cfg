SPECIFICATION Spec
VIEW OView
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- OWorlds
  Moves <- OMoves
  Allowed <- OAllowed
  Ghost0 <- OGhost0
  Ghost <- OGhost
  Claims <- OClaims
  Core <- OCore
  Emit = TRUE
  MaxLen = 6
