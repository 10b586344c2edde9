SPECIFICATION Spec
CONSTANTS
  Starts <- StartsAll
  Comps <- CompsNone
  Wides = {FALSE}
  Mdats = {"near", "far", "second", "none", "moov", "meta", "skip", "moof", "pnot", "udta", "hide"}
  Pick = 0
  Mode = "some"
INVARIANT MajorRules
CHECK_DEADLOCK FALSE
