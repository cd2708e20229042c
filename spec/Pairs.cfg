SPECIFICATION Spec
CONSTANT Slices = {"columns", "keys", "enums", "structs", "references", "lookups", "docs", "policies"}
INVARIANTS Sound GrowthIsPossible FromNothing Emit
CHECK_DEADLOCK FALSE
