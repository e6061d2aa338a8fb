SPECIFICATION Spec
CONSTANTS
    MaxPrefix = 2
    Dump = TRUE
    Bug = "none"
INVARIANTS DesignStrings DesignNames Print_
CHECK_DEADLOCK FALSE
