SPECIFICATION Spec
CONSTANTS Size = 2
 Blocking = FALSE
 Puts = 4
 Spurious = TRUE
 IntLast = FALSE
 Bug = "copy_outside"
INVARIANTS Linearizable Mapping NotTouched NodesKept
CHECK_DEADLOCK TRUE
