SPECIFICATION Spec
CONSTANTS Size = 1
 Blocking = FALSE
 Puts = 6
 Spurious = FALSE
 IntLast = TRUE
 Bug = "none"
INVARIANTS Linearizable Mapping NotTouched NodesKept
CHECK_DEADLOCK TRUE
