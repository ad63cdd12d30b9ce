SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Antisymmetric Reflexive Limited PrefixOrdered Transitive
CHECK_DEADLOCK FALSE
