SPECIFICATION Spec
CONSTANTS
  NDirs = 2
  MaxEnts = 1
  Alpha = {"a", "b", "zero", "bad", "trunc", "gver", "exif", "gps"}
  NextRefs <- DangNext
  PtrRefs <- Dang
  Overs = {0}
  Orders = {"fwd"}
  Endian = {"II"}
  Gaps = {0}
  Tails = {0}
  Wraps = {"jpeg"}
  Chain = 0
  Pick = 0
  Mode = "some"
INVARIANT NoDup DepthBound AllReached OnlyReached
CHECK_DEADLOCK FALSE
