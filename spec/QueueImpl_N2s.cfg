SPECIFICATION Spec
CONSTANTS Size = 2
 Blocking = FALSE
 Puts = 6
 Spurious = TRUE
 IntLast = FALSE
 Bug = "none"
INVARIANTS Linearizable Mapping NotTouched NodesKept
CHECK_DEADLOCK TRUE
