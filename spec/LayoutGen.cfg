SPECIFICATION Spec
CONSTANT MaxSeg = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
