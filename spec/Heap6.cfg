SPECIFICATION Spec
CONSTANT Prios <- Prios6
VIEW View
INVARIANTS HeapOrder LocatorsRight NoDuplicates
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
