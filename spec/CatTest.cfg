SPECIFICATION Spec
CONSTANTS
  Names <- WithTwins
  Mode = "all"
CHECK_DEADLOCK FALSE
