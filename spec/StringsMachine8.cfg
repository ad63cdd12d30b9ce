SPECIFICATION Spec
CONSTANTS MaxLen = 8
INVARIANTS Inside SplitRight AtomsRight StripRight Unique
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
