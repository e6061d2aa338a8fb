SPECIFICATION Spec
CONSTANTS
    MaxOperands = 2
    Dump = TRUE
    Bug = "none"
INVARIANTS DesignOperations Print_
CHECK_DEADLOCK FALSE
