-------------------------- MODULE BuilderHeapTrace --------------------------
(***************************************************************************)
(* BuilderTrace, and: once its builders, caches and trees are gone, a      *)
(* history leaves nothing behind, has released nothing twice and written   *)
(* to nothing it had released.                                             *)
(***************************************************************************)
EXTENDS BuilderTrace

BHStep(e) == /\ TStep(e)
             /\ e.a = "reset" => Chk("blocks left, released twice, written to after release", <<0, 0, 0>>, e.left)
BHNext == l <= Len(Trace) /\ BHStep(Trace[l]) /\ K' = KNext(Trace[l]) /\ l' = l + 1
BHSpec == TInit /\ [][BHNext]_bvars
=============================================================================
