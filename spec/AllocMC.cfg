SPECIFICATION Spec
CONSTANTS W = 12
 Big = 8
 Owners = {o1, o2}
 MaxBlocks = 2
INVARIANTS NeverShort ExactWhenSmall OneEach
CHECK_DEADLOCK FALSE
