SPECIFICATION Spec
VIEW KView
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- KWorlds
  Moves <- KMoves
  Allowed <- KAllowed
  Ghost0 <- KGhost0
  Ghost <- KGhost
  Claims <- KClaims
  Core <- KCore
  Emit = TRUE
  MaxLen = 6
  Parts = {"message", "tls", "odd"}
