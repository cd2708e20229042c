SPECIFICATION Spec
CONSTANTS Names = {"alpha"}
          Bundled = {}
          Engines = {"e1"}
          Gens = {"g1", "g2"}
          Schemas = {"A", "A,B"}
          Depth = 5
          Part = "generators"
INVARIANTS Exact Emit
PROPERTIES Independent
CHECK_DEADLOCK FALSE
