SPECIFICATION Spec
CONSTANTS
  Fmts <- FmtSet
  Cnts <- CntStd
  Pats = {"seq", "neg"}
  Endian = {"II", "MM"}
  Places = {"ok", "cut", "far", "max"}
  Dirs = {"ifd0"}
  Tags = {37500}
  Pick = 0
  Mode = "mem"
INVARIANT AccWithin CountKept
CHECK_DEADLOCK FALSE
