CONSTANT H <- Header
INIT Init
NEXT Next
VIEW Seen
INVARIANTS WellFormed Laws Emitted
CHECK_DEADLOCK FALSE
