SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- Setup_rr
  RxT = "sdr"
  TxT = "none"
  NPush = 0
  Env = {"eof"}
  Bug = "no_pill"
  defaultInitValue = 0
INVARIANTS Conforms NoUse Settled Stops
