SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- Setup_rr
  RxT = "sdr"
  TxT = "none"
  NPush = 0
  Env = {"close"}
  Bug = "no_lock"
  defaultInitValue = 0
INVARIANTS Conforms NoUse Settled Stops
