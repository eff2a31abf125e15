SPECIFICATION ASpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
