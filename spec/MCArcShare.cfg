SPECIFICATION Spec
CONSTANTS
  Places <- MCPlaces
  Ids <- MCIds
  Read <- WRead
  Clone <- WClone
  Drop <- WDrop
  Acquire <- WAcquire
INVARIANTS Inv Held
CHECK_DEADLOCK FALSE
