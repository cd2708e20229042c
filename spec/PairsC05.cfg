SPECIFICATION Spec
CONSTANT Slices = {"lookups", "columns"}
INVARIANTS Sound GrowthIsPossible FromNothing Emit
CHECK_DEADLOCK FALSE
