SPECIFICATION Spec
CONSTANTS MaxText = 2
          MaxRows = 3
INVARIANTS ReadsBack Emit
CHECK_DEADLOCK FALSE
