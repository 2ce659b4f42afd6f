SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- DWorlds
  Moves <- DMoves
  Allowed <- DAllowed
  Ghost0 <- DGhost0
  Ghost <- DGhost
  Claims <- DClaims
  Core <- DCore
  Emit = TRUE
  MaxLen = 5
  Counts = {1, 2, 3}
  Points = {"helo", "from", "to"}
