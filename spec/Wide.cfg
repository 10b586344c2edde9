SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsAll
  Counts = {3, 20, 63, 64, 65, 100, 300}
  Endian = {"II", "MM"}
  Mode = "all"
CHECK_DEADLOCK FALSE
