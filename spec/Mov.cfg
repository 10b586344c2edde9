SPECIFICATION Spec
CONSTANTS
  Majors = {"qt  ", "isom"}
  Pre <- PreNone
  Post <- PostNone
  Kids <- KidsAll
  Mvhds <- Mvhd0
  Trks <- TrksAll
  Metas <- Metas0
  Udtas <- Udtas0
  Wides = {FALSE}
  Aligns = {}
  Deltas = {}
  Ends = {FALSE}
  Pick = 0
  Mode = "some"
INVARIANT OrderFree
INVARIANT DateOk
CHECK_DEADLOCK FALSE
