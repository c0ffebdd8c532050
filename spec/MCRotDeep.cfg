SPECIFICATION Spec
CONSTANT Step = 15
INVARIANTS Orthonormal ExactCube Parameterisations AxisAngle ActionIsLinear PreservesDot PreservesCross DiffInverse
CHECK_DEADLOCK FALSE
