SPECIFICATION Spec
INVARIANTS Counted Sound Held Complete
PROPERTIES Emit
CHECK_DEADLOCK FALSE
