SPECIFICATION BHSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
