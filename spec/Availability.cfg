SPECIFICATION Spec
INVARIANTS OwnDependencyOnly
CHECK_DEADLOCK FALSE
