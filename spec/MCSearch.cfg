CONSTANT H <- Header
INIT Init
NEXT Next
VIEW All
INVARIANTS Invariant Answer Emitted
CHECK_DEADLOCK FALSE
