SPECIFICATION Spec
CONSTANT Step = 30
INVARIANTS Orthonormal ExactCube Parameterisations AxisAngle ActionIsLinear PreservesDot PreservesCross DiffInverse
CHECK_DEADLOCK FALSE
