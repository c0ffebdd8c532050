SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Pieced Reaches Continuous Limited RectLimited Fastest RestEnds HalfEnds AsLong AtPart SplineEnds
CHECK_DEADLOCK FALSE
