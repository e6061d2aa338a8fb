SPECIFICATION Spec
CONSTANTS
    Targets = {1, 2, 3, 10, 99, 345, 2147483647}
    Dump = TRUE
    Bug = "none"
INVARIANTS DesignRenumber DesignScan OnlyNumbers Invertible Print_
CHECK_DEADLOCK FALSE
