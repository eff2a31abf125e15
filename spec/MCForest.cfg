SPECIFICATION FSpec
CHECK_DEADLOCK FALSE
INVARIANTS Emit Inv_Store Inv_Tiling Inv_Nav Inv_Walk Inv_Position Inv_Views Inv_Ptr Inv_Render
