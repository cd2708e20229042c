SPECIFICATION Spec
CONSTANTS Names = {"alpha", "Alpha", "postgresql"}
          Bundled = {"postgresql"}
          Engines = {"e1", "e2"}
          Gens = {"g1"}
          Schemas = {"A"}
          Depth = 5
          Part = "registry"
INVARIANTS Exact Emit
PROPERTIES Independent
CHECK_DEADLOCK FALSE
