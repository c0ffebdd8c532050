SPECIFICATION Spec
CONSTANT Box = 1
INVARIANTS Inverse Associative ActsOnPoints ActsOnTwists ActsOnWrenches PowerInvariant FrameIsRotationAndShift CrossIsDual
CHECK_DEADLOCK FALSE
