SPECIFICATION Spec
CONSTANTS Size = 1
 Blocking = FALSE
 Puts = 6
 Spurious = TRUE
 IntLast = FALSE
 Bug = "none"
INVARIANTS Linearizable Mapping NotTouched NodesKept
CHECK_DEADLOCK TRUE
