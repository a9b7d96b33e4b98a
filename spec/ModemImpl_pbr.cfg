SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- Setup_pbr
  RxT = "sdr"
  TxT = "none"
  NPush = 0
  Env = {"close", "stop"}
  Bug = "no"
  defaultInitValue = 0
INVARIANTS Conforms NoUse Settled Stops
