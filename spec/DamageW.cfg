SPECIFICATION WalkSpec
CONSTANTS
  Names <- AllFiles
  Pats <- PatsAll
  Modes = {"Mem", "Seek", "Unseek", "ASeek"}
  Calls = {"exif", "track", "imeta"}
  Stride = 1
  Fine = 600
  Chunk = 4
  Agree = FALSE
  MaxEdits = 5
  Many = 40
  Base = 4000000
  Per = 64
INVARIANT InFile
CHECK_DEADLOCK FALSE
