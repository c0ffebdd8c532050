SPECIFICATION Spec
CONSTANTS
    Arms = 5
    Depth = 2
    Rounds = 8
INVARIANTS PseudoInverseIsLeast WeightedIsLeast DampedIsLeast SecondaryIsFree StackedIsBranches VerdictOnPinv VerdictOnSizes VerdictOnGivens VerdictOnTree
    IterationKeepsLimits FindsNear EveryStepHelps StaysAtGoal VerdictOnPositions
CHECK_DEADLOCK FALSE
