SPECIFICATION Spec
CONSTANT Box = 2
INVARIANTS Inverse Associative ActsOnPoints ActsOnTwists ActsOnWrenches PowerInvariant FrameIsRotationAndShift CrossIsDual
CHECK_DEADLOCK FALSE
