SPECIFICATION Spec
CONSTANTS
    MaxPrefix = 4
    Dump = TRUE
    Bug = "none"
INVARIANTS DesignStrings DesignNames Print_
CHECK_DEADLOCK FALSE
