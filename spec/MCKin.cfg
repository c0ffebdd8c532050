SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS JacobianIsVelocity VelocityIsRate JacDotIsRate BiasAcceleration TipAtZero
CHECK_DEADLOCK FALSE
