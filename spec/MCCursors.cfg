SPECIFICATION Spec
CONSTANTS WEAK <- Weak
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Inv_NoErrors Inv_Counts Inv_Rings Inv_Links Inv_Refines Inv_Snapshots Inv_Identity Inv_Empty Inv_Forest
PROPERTIES EmitHist
