SPECIFICATION Spec
CONSTANTS
    MaxOperands = 3
    Dump = TRUE
    Bug = "none"
INVARIANTS DesignOperations Print_
CHECK_DEADLOCK FALSE
