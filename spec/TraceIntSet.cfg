SPECIFICATION Spec
INVARIANT InBounds
CHECK_DEADLOCK TRUE
