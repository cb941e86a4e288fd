SPECIFICATION Spec
CONSTANT Kinds = {"swt"}
CONSTANT MaxN = 13
CONSTANT MaxN2 = 3
CONSTANT MaxJ = 3
INVARIANTS Premise Lengths Accepts Restores
CHECK_DEADLOCK FALSE
