SPECIFICATION Spec
CONSTANTS Size = 3
 Blocking = FALSE
 Puts = 7
 Spurious = FALSE
 IntLast = FALSE
 Bug = "none"
INVARIANTS Linearizable Mapping NotTouched NodesKept
CHECK_DEADLOCK TRUE
