SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- Setup_rr
  RxT = "pluto"
  TxT = "none"
  NPush = 1
  Env = {"close", "stop"}
  Bug = "no"
  defaultInitValue = 0
INVARIANTS Conforms NoUse Settled Stops
