SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- TWorlds
  Moves <- TMoves
  Allowed <- TAllowed
  Ghost0 <- TGhost0
  Ghost <- TGhost
  Claims <- TClaims
  Core <- TCore
  Emit = TRUE
  MaxLen = 5
  Rich = TRUE
