SPECIFICATION Spec
CONSTANTS
    MaxNum = 7
    MaxObjs = 4
    Bug = "none"
INVARIANTS InOrder Forward Total FreeList UsedExactly PanicsIffDuplicate Refines
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
