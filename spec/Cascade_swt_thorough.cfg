SPECIFICATION Spec
CONSTANT Kinds = {"swt"}
CONSTANT MaxN = 20
CONSTANT MaxN2 = 5
CONSTANT MaxJ = 4
INVARIANTS Premise Lengths Accepts Restores
CHECK_DEADLOCK FALSE
