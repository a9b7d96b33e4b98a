SPECIFICATION Spec
CONSTANTS Size = 2
 Blocking = TRUE
 Puts = 6
 Spurious = FALSE
 IntLast = FALSE
 Bug = "none"
INVARIANTS Linearizable Mapping NotTouched NodesKept
CHECK_DEADLOCK TRUE
