SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Accepts NoBeginnings NothingMissing NothingChanged InDegrees Switched Sound
CHECK_DEADLOCK FALSE
