SPECIFICATION Spec
CONSTANTS Size = 3
 Blocking = TRUE
 Puts = 6
 Spurious = FALSE
 IntLast = TRUE
 Bug = "none"
INVARIANTS Linearizable Mapping NotTouched NodesKept
CHECK_DEADLOCK TRUE
