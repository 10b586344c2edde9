SPECIFICATION Spec
CONSTANTS
  Names <- AllFiles
  Calls = {"exif", "track", "imeta"}
  Modes = {"Seek", "Unseek", "ASeek", "AUnseek"}
  Scheds = {"full", "rand"}
  Kinds = {"ConnectionReset"}
  Stickies = {TRUE, FALSE}
CHECK_DEADLOCK FALSE
