SPECIFICATION Spec
CONSTANTS
  MaxSegs = 2
  Mode = "all"
  Kinds = {"exif","exifbig","exifxl","exifmin","exifempty","app1xmp","app1other","app1short","app1five","app1nil","app0","app2exif","app2big","comtrap","dqt","sof","sos","fill1","fill300"}
  Aligns = {8192, 8320, 24704}
  Deltas = {2,4,5,6,7,8,10,11,12,13,14,15,16,17}
INVARIANT WalkerCorrect
CHECK_DEADLOCK FALSE
