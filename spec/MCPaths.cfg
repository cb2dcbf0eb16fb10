SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANT Sound
CHECK_DEADLOCK FALSE
