SPECIFICATION Spec
CONSTANTS
    MaxOps = 6
    Dump = TRUE
INVARIANTS DepthIsOpenSaves AllWritten NeverNegative RepeatIsSteps Print_
CHECK_DEADLOCK FALSE
