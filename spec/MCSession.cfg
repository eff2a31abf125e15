SPECIFICATION MSpec
CONSTANTS Handles <- MH
          Slots <- MG
          Iters <- MI
VIEW View
CONSTRAINT Depth
CHECK_DEADLOCK FALSE
INVARIANTS Inv_Forest Inv_Place
PROPERTIES EmitScen Prop_Immutable Prop_Snapshots Prop_Handles Prop_Frame Prop_Detach Prop_Splice Prop_Loop Prop_Copies Prop_Called
