SPECIFICATION Spec
INVARIANT Visit
CHECK_DEADLOCK FALSE
