SPECIFICATION Spec
CONSTANTS
    Depth = 3
    Branches = TRUE
INVARIANTS InertiaIsKinetic SumOfParts Lagrange GravityIsSlope EnergyBalance WrenchWork ForwardInvertsInverse FreeMotion TreeIsBranches
CHECK_DEADLOCK FALSE
