SPECIFICATION Spec
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Worlds <- LWorlds
  Moves <- LMoves
  Allowed <- LAllowed
  Ghost0 <- LGhost0
  Ghost <- LGhost
  Claims <- LClaims
  Core <- LCore
  Emit = TRUE
  MaxLen = 1
  Alphabet = {"from p@", "from @x.test", "not", "or", "(", ")", ";"}
  Tokens1 = 4
  Prefix = 2
