SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Pieced Reaches Continuous Limited RectLimited Fastest RestEnds HalfEnds AsLong AtPart SplineEnds
CHECK_DEADLOCK FALSE
