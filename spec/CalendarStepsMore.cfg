SPECIFICATION Spec
CONSTANTS FirstYear = -805
 LastYear = 2805
INVARIANT Follows
CHECK_DEADLOCK FALSE
