SPECIFICATION Spec
CONSTANTS Inst = {1, 2, 3, 4, 5, 6, 7, 8}
CHECK_DEADLOCK FALSE
