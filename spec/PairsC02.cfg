SPECIFICATION Spec
CONSTANT Slices = {"columns", "keys", "structs", "docs"}
INVARIANTS Sound GrowthIsPossible FromNothing Emit
CHECK_DEADLOCK FALSE
