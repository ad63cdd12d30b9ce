SPECIFICATION OSpec
CONSTRAINT OBound
PROPERTIES NoResurrection OneAtATime
CHECK_DEADLOCK FALSE
