SPECIFICATION Spec
CONSTANT MaxKey = 7
VIEW View
INVARIANTS InOrder Avl Logarithmic
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
