SPECIFICATION Spec
CONSTANTS Schemas = {1, 2, 3}
          Objects = {1, 2}
          MaxOps = 3
          Mutable = FALSE
INVARIANTS Idempotent Symmetric Associative Emit
CHECK_DEADLOCK FALSE
