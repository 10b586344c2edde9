SPECIFICATION Spec
CONSTANTS
  Names <- Good
  Calls = {"exif", "track", "imeta"}
  Modes = {"Mem", "Seek", "Unseek", "ASeek", "AUnseek"}
  Scheds = {"full"}
  Chunk = 20
  Fine = 40
CHECK_DEADLOCK FALSE
