SPECIFICATION Spec
CONSTANTS EB = 4
 FBs = {1, 2, 3, 4, 5, 6}
 Ws = {3, 4, 5, 6, 7}
INVARIANT Right
CHECK_DEADLOCK FALSE
