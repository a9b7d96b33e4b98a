SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- Setup_tt
  RxT = "sdr"
  TxT = "file"
  NPush = 0
  Env = {"close", "bye"}
  Bug = "close_first"
  defaultInitValue = 0
INVARIANTS Conforms NoUse Settled Stops
