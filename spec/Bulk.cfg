SPECIFICATION Spec
CONSTANTS
  Kinds <- AllKinds
  Counts = {1000, 65535}
  Modes = {"Mem", "Seek", "Unseek", "ASeek"}
  Calls = {"exif", "track", "imeta"}
  Base = 16000000
  Per = 128
  Secs = 15
CHECK_DEADLOCK FALSE
