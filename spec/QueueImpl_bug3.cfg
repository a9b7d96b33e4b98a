SPECIFICATION Spec
CONSTANTS Size = 1
 Blocking = TRUE
 Puts = 4
 Spurious = FALSE
 IntLast = TRUE
 Bug = "no_broadcast"
INVARIANTS Linearizable Mapping NotTouched NodesKept
CHECK_DEADLOCK TRUE
