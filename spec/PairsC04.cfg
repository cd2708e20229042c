SPECIFICATION Spec
CONSTANT Slices = {"policies"}
INVARIANTS Sound GrowthIsPossible FromNothing Emit
CHECK_DEADLOCK FALSE
