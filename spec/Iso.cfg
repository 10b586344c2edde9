SPECIFICATION Spec
CONSTANTS
  LatU = {0, 1, 2, 3, 4, 5, 6, 9}
  LonU = {0, 1, 2, 5, 6, 7, 8, 10}
  Forms <- FormAll
  Alts <- AltAll
  Spaces <- Spaces0
  Pick = 0
INVARIANT Normal Exact
CHECK_DEADLOCK FALSE
