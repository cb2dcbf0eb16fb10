SPECIFICATION Spec
VIEW Where
INVARIANT Inv
CHECK_DEADLOCK FALSE
