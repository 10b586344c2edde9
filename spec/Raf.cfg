SPECIFICATION Spec
CONSTANTS
  MaxSegs = 1
  Mode = "all"
  Kinds = {"exif","exifbig","exifempty","app1xmp","comtrap","sos"}
  Offsets = {0, 87, 88, 89, 92, 148, 30000}
  Aligns = {128, 8192, 8320, 24704}
  Deltas = {10,12,13,14,15,16,17}
  Cams = {"short", "full", "empty"}
INVARIANT WalkerCorrect
CHECK_DEADLOCK FALSE
