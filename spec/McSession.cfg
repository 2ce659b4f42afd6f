SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- SWorlds
  Moves <- SMoves
  Allowed <- SAllowed
  Ghost0 <- SGhost0
  Ghost <- SGhost
  Claims <- SClaims
  Core <- SCore
  Emit = TRUE
  MaxLen = 8
  Stride = 30
  Phase = 0
