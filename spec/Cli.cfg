SPECIFICATION Spec
CONSTANTS
  Names <- Everything
  Singles <- Everything
  DirMax = 1
  Opts <- AllOpts
  Pick = 1
CHECK_DEADLOCK FALSE
