SPECIFICATION Spec
CONSTANTS Kinds = 4 Size = 2 After = 1
INVARIANTS Numbered Rooted Paths Jacobian
VIEW View
CHECK_DEADLOCK FALSE
