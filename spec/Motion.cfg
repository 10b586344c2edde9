SPECIFICATION Spec
CONSTANTS
  Orders <- OrdersAll
  Marks = {"mp"}
  Locs <- LocsAll
  Ats = {"video"}
  Trailers = {"mp4", "mdatfirst"}
  Pads = {9000}
  Aligns = {}
  Deltas = {}
  Pick = 0
  Mode = "some"
INVARIANT Scanned
CHECK_DEADLOCK FALSE
