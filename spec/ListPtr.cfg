SPECIFICATION Spec
CONSTANTS MaxElems = 4
          Vals = {1, 2}
VIEW View
INVARIANT WellFormed
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
