SPECIFICATION Spec
VIEW View
INVARIANTS Counted Sound Held Complete
CHECK_DEADLOCK FALSE
