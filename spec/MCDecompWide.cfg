SPECIFICATION Spec
CONSTANTS M = 2
 K = 3
 Entries = {0, 1, 2}
 AnyOrder = 3
INVARIANTS ProductKept Better Soon Reached Values Strict Symmetric
CHECK_DEADLOCK FALSE
