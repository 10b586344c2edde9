SPECIFICATION ExSpec
CONSTANTS
  Files <- WithTwins
  Calls = {"exif", "track", "imeta", "eager"}
  Modes = {"Mem", "MemOld", "Seek", "Unseek", "File", "AMem", "ASeek", "AUnseek"}
  Scheds = {"full", "rand"}
  Ops = {"parse", "keep", "newparser", "broken", "next", "take", "drain", "thread", "clone", "rewound", "rewind", "gps", "emb", "debug", "intoclone", "toexif", "par", "drop"}
  MaxH = 2
  MaxLen = 4
  Recycle = "unshared"
INVARIANT Intact InRange
CHECK_DEADLOCK FALSE
