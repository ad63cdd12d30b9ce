SPECIFICATION Spec
CONSTANTS Slots = {1, 2}
          Ks = {1, 2, 3}
          Vs = {1, 2}
          MaxLoose = 2
VIEW View
CONSTRAINT Bound
INVARIANT TreesOrdered
PROPERTIES Independent LooseIntact CopyEqual
CHECK_DEADLOCK FALSE
