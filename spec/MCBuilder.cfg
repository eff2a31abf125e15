SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANTS Emit Inv_Shape Inv_Text Inv_Positions Inv_Content Inv_Sharing Inv_Promise
