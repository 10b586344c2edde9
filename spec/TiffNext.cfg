SPECIFICATION Spec
CONSTANTS
  Far = {200, 4000, 9000}
CHECK_DEADLOCK FALSE
