SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- VWorlds
  Moves <- VMoves
  Allowed <- VAllowed
  Ghost0 <- VGhost0
  Ghost <- VGhost
  Claims <- VClaims
  Core <- VCore
  Emit = TRUE
  MaxLen = 4
  Hashes = {"msg", "full", "all"}
  Faults = {"open", "write", "sync", "close", "link"}
  Kills = {"open", "write", "sync", "close", "link", "remove"}
