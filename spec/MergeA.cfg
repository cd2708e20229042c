SPECIFICATION Spec
CONSTANTS Schemas = {1, 2}
          Objects = {1, 2}
          MaxOps = 3
          Mutable = TRUE
INVARIANTS Idempotent Symmetric Associative Emit
CHECK_DEADLOCK FALSE
