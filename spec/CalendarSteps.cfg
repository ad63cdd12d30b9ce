SPECIFICATION Spec
CONSTANTS FirstYear = 1595
 LastYear = 2005
INVARIANT Follows
CHECK_DEADLOCK FALSE
