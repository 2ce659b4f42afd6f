SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- PWorlds
  Moves <- PMoves
  Allowed <- PAllowed
  Ghost0 <- PGhost0
  Ghost <- PGhost
  Claims <- PClaims
  Core <- PCore
  Emit = TRUE
  MaxLen = 14
  Texts = {"reject from ./pats\nset-with from <> with savedir alt note n1\n", "stall to r@y.test\n@message reject from <>\n", "reject from <>\n"}
