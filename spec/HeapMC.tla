------------------------------- MODULE HeapMC -------------------------------
EXTENDS Heap
Prios6 == <<1, 2, 2, 3, 3, 1>>
Prios7 == <<1, 2, 2, 3, 4, 1, 3>>
Prios8 == <<1, 2, 2, 3, 4, 1, 3, 5>>
=============================================================================
