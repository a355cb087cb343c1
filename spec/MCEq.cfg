CONSTANT H <- Header
INIT Init
NEXT Next
VIEW All
INVARIANTS WellFormed Laws Emitted
CHECK_DEADLOCK FALSE
