SPECIFICATION Spec
CONSTANTS
  DocTypes = {"webm", "matroska", "webm00"}
  SegSizes = {0, 8}
  Kids <- KidsAll
  Seeks <- SeeksAll
  Infos <- Infos0
  Trks <- Trks0
  Ws = {1}
  Big = {200}
  Aligns = {}
  Deltas = {}
  Ats = {"info"}
  Pick = 0
  Mode = "some"
INVARIANT SeekRight
INVARIANT SizesRight
CHECK_DEADLOCK FALSE
