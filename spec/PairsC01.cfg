SPECIFICATION Spec
CONSTANT Slices = {"structs", "references"}
INVARIANTS Sound GrowthIsPossible FromNothing Emit
CHECK_DEADLOCK FALSE
