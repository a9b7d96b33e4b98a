SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- Setup_ttt
  RxT = "sdr"
  TxT = "file"
  NPush = 0
  Env = {"close", "bye"}
  Bug = "no"
  defaultInitValue = 0
INVARIANTS Conforms NoUse Settled Stops
