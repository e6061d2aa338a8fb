SPECIFICATION Spec
CONSTANTS
    MaxOps = 4
    Dump = TRUE
    Bug = "none"
INVARIANTS DesignTrailer LastCounts Print_
CHECK_DEADLOCK FALSE
