SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4}
          Vals = {1, 2}
          Buckets = 2
VIEW View
INVARIANTS InPlace SizeRight OneEach TraversalComplete
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
