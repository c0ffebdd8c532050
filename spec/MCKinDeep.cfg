SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS JacobianIsVelocity VelocityIsRate JacDotIsRate BiasAcceleration TipAtZero
CHECK_DEADLOCK FALSE
