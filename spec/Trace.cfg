SPECIFICATION Spec
CONSTANT H <- Header
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
