SPECIFICATION Spec
CONSTANTS
    MaxNodes = 3
    Dump = TRUE
    Small = FALSE
    Bug = "none"
INVARIANTS DesignRoundTrip Conserved Nested Print_
CHECK_DEADLOCK FALSE
