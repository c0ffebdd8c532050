SPECIFICATION Spec
CONSTANTS
    Arms = 3
    Depth = 1
    Rounds = 7
INVARIANTS PseudoInverseIsLeast WeightedIsLeast DampedIsLeast SecondaryIsFree StackedIsBranches VerdictOnPinv VerdictOnSizes VerdictOnGivens VerdictOnTree
    IterationKeepsLimits FindsNear EveryStepHelps StaysAtGoal VerdictOnPositions
CHECK_DEADLOCK FALSE
