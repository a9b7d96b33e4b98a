SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- Setup_rr
  RxT = "pluto"
  TxT = "none"
  NPush = 0
  Env = {"bye"}
  Bug = "close_first"
  defaultInitValue = 0
INVARIANTS Conforms NoUse Settled Stops
