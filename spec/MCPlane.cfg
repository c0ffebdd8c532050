SPECIFICATION Spec
CONSTANT Box = 2
INVARIANTS Agree Acts Composes Inverts Homogeneous Planar Rigid
CHECK_DEADLOCK FALSE
