SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Pick = 600
  Types = {"U8","U16","U32","U64","I8","I16","I32","I64","F32","F64","Text","Undefined","U8Array","U16Array","U32Array","URational","IRational","URationalArray","IRationalArray","DateTime","NaiveDateTime"}
INVARIANT EveryElement
CHECK_DEADLOCK FALSE
