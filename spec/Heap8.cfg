SPECIFICATION Spec
CONSTANT Prios <- Prios8
VIEW View
INVARIANTS HeapOrder LocatorsRight NoDuplicates
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
