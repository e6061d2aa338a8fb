SPECIFICATION Spec
CONSTANTS
    Targets = {1, 2, 345}
    Dump = TRUE
    Bug = "none"
INVARIANTS DesignRenumber DesignScan OnlyNumbers Invertible Print_
CHECK_DEADLOCK FALSE
