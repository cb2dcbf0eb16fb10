SPECIFICATION USpec
VIEW Where
CHECK_DEADLOCK FALSE
