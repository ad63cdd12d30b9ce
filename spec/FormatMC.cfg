SPECIFICATION Spec
INVARIANTS Fits Laws
CHECK_DEADLOCK FALSE
