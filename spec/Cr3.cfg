SPECIFICATION Spec
CONSTANTS
  Pre <- PreNone
  MoovPre <- MoovNone
  B1 = {"tiff", "gps", "sub", "garbage", "short", "empty", "absent"}
  B2 = {"tiff", "gps", "sub", "big", "garbage", "short", "absent"}
  B3 = {"tiff", "absent"}
  Ords <- OrdAll
  Fill = {0, 30}
  Wides = {FALSE}
  Post <- PreNone
  Aligns = {}
  Deltas = {}
  Big = 9000
  Pick = 0
  Mode = "some"
INVARIANT WalkOk
CHECK_DEADLOCK FALSE
