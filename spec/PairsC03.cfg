SPECIFICATION Spec
CONSTANT Slices = {"docs", "lookups"}
INVARIANTS Sound GrowthIsPossible FromNothing Emit
CHECK_DEADLOCK FALSE
