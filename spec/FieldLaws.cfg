SPECIFICATION Spec
INVARIANTS Arithmetic Roots Functions
CHECK_DEADLOCK FALSE
