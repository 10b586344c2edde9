SPECIFICATION Spec
CONSTANTS
  Years = {2023}
  Months = {7}
  Days = {9}
  Hours = {20}
  Mins = {36}
  Secs = {33}
  Odd <- NoOdd
  OffO <- OffFew
  OffD <- OffFew
  OffT <- OffFew
  OffOrd = {"tod", "dot", "odt"}
  DateTags = {306, 36867, 36868}
  DatePos = {"first", "last"}
  PtrPos = {"first", "last"}
  Endian = {"II"}
  DirOrd = {"fwd"}
  Pick = 0
  Mode = "mem"
INVARIANT OffsetKept
CHECK_DEADLOCK FALSE
