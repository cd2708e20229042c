SPECIFICATION Spec
CONSTANTS MaxText = 2
          MaxRows = 2
INVARIANTS ReadsBack Emit
CHECK_DEADLOCK FALSE
