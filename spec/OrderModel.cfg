SPECIFICATION Spec
CONSTANT MaxJ = 8
INVARIANTS Complete Natural OneLetter Reflected Complete2
CHECK_DEADLOCK FALSE
