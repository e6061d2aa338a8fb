SPECIFICATION Spec
CONSTANTS
    MaxOps = 3
    Dump = TRUE
    Bug = "none"
INVARIANTS DesignTrailer LastCounts Print_
CHECK_DEADLOCK FALSE
