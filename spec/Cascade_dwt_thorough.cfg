SPECIFICATION Spec
CONSTANT Kinds = {"dwt"}
CONSTANT MaxN = 16
CONSTANT MaxN2 = 5
CONSTANT MaxJ = 4
INVARIANTS Premise Lengths Accepts Restores
CHECK_DEADLOCK FALSE
