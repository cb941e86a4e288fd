SPECIFICATION Spec
CONSTANT Kinds = {"dwt"}
CONSTANT MaxN = 9
CONSTANT MaxN2 = 3
CONSTANT MaxJ = 3
INVARIANTS Premise Lengths Accepts Restores
CHECK_DEADLOCK FALSE
