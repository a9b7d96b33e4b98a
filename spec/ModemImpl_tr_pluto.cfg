SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- Setup_tr
  RxT = "pluto"
  TxT = "pluto"
  NPush = 0
  Env = {"close", "stop"}
  Bug = "no"
  defaultInitValue = 0
INVARIANTS Conforms NoUse Settled Stops
