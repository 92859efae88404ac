SPECIFICATION Spec
INVARIANT Lawful
CHECK_DEADLOCK FALSE
