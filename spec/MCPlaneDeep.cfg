SPECIFICATION Spec
CONSTANT Box = 3
INVARIANTS Agree Acts Composes Inverts Homogeneous Planar Rigid
CHECK_DEADLOCK FALSE
