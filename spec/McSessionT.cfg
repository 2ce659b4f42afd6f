SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- SWorlds
  Moves <- SMoves
  Allowed <- SAllowed
  Ghost0 <- SGhost0
  Ghost <- SGhost
  Claims <- SClaims
  Core <- SCore
  Emit = TRUE
  MaxLen = 9
  Stride = 2
  Phase = 0
