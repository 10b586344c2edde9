SPECIFICATION Many
CONSTANTS
  Names <- Everything
  Singles <- Everything
  DirMax = 8
  Opts <- AllOpts
  Pick = 20
CHECK_DEADLOCK FALSE
