SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- XWorlds
  Moves <- XMoves
  Allowed <- XAllowed
  Ghost0 <- XGhost0
  Ghost <- XGhost
  Claims <- XClaims
  Core <- XCore
  Emit = TRUE
  MaxLen = 1
  Family = "form"
  Alphabet = {"a","@",".","\""}
  Length = 3
