SPECIFICATION Spec
CONSTANTS
  Blocks <- AllBlocks
  Width = 64
  TagDirs = {"ifd0", "exif", "gps", "ifd1"}
  Endian = {"II"}
  Mode = "mem"
INVARIANT Kept
CHECK_DEADLOCK FALSE
