SPECIFICATION Spec
CONSTANT Slices = {"enums", "references", "keys"}
INVARIANTS Sound GrowthIsPossible FromNothing Emit
CHECK_DEADLOCK FALSE
