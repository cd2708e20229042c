SPECIFICATION Spec
CONSTANTS MaxRows = 3
          Names = {"a", "b", "c"}
          Width = 3
INVARIANTS Complete AllValues Emit
CHECK_DEADLOCK FALSE
