SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Accepts NoBeginnings NothingMissing NothingChanged InDegrees Switched Sound
CHECK_DEADLOCK FALSE
