SPECIFICATION Spec
CONSTANTS
    MaxNum = 9
    MaxObjs = 6
    Bug = "none"
INVARIANTS InOrder Forward Total FreeList UsedExactly PanicsIffDuplicate Refines
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
