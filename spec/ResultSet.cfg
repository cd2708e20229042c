SPECIFICATION Spec
CONSTANTS MaxRows = 2
          Names = {"a", "b", "c"}
          Width = 3
INVARIANTS Complete AllValues Emit
CHECK_DEADLOCK FALSE
