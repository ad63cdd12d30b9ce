SPECIFICATION Spec
CONSTANTS InitSize = 2
          MaxSizes = {1, 2, 3, 4, 5, 6, 7, 9}
          MaxLen = 9
INVARIANTS Terminated NoGarbage
PROPERTY Refines
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
