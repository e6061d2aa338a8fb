SPECIFICATION Spec
CONSTANTS
    Chunks = 2
    MaxOps = 5
    Dump = TRUE
    Bug = "none"
INVARIANTS LimitsAreMaxima DesignBodies Print_
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
