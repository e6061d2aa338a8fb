SPECIFICATION Spec
CONSTANTS
    Chunks = 2
    MaxOps = 4
    Dump = TRUE
    Bug = "none"
INVARIANTS LimitsAreMaxima DesignBodies Print_
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
