SPECIFICATION Spec
CONSTANTS InitSize = 2
          MaxSizes = {1, 2, 3, 5, 6}
          MaxLen = 6
INVARIANTS Terminated NoGarbage
PROPERTY Refines
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
