SPECIFICATION Spec
CONSTANTS M = 3
 K = 2
 Entries = {0, 1, 2}
 AnyOrder = 0
INVARIANTS ProductKept Better Soon Reached Values Strict Symmetric
CHECK_DEADLOCK FALSE
