SPECIFICATION Spec
CONSTANTS
  Job = "deg"
  Bases <- MinuteSome
  Deltas = {0,1,2,3,4,6,7,8,9,10,11,14,16,100,999,1000,1001,9990,9994,9996,29999,59990,59994,59996,59999}
  Pick = 2000
INVARIANTS Normal Close
CHECK_DEADLOCK FALSE
