SPECIFICATION Spec
CONSTANTS
    MaxNum = 3
    MaxOps = 4
    Dump = TRUE
    Bug = "none"
INVARIANTS DesignFinds DesignFreeList DesignTrailer DesignBody LimitsAreMaxima Print_
PROPERTIES OnlyAppends RenumberKeepsShape
CHECK_DEADLOCK FALSE
