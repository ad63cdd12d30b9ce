SPECIFICATION Spec
CONSTANTS W = 3
          MaxCap = 7
VIEW View
INVARIANT SearchesRight
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
