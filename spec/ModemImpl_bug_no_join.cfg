SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- Setup_rr
  RxT = "sdr"
  TxT = "none"
  NPush = 1
  Env = {"bye"}
  Bug = "no_join"
  defaultInitValue = 0
INVARIANTS Conforms NoUse Settled Stops
