------------------------------ MODULE ArcProof ------------------------------
(***************************************************************************)
(* Proof that the protocol of ArcShare is safe for any number of threads,  *)
(* handles and operations. Checked by tlapm.                               *)
(***************************************************************************)
EXTENDS ArcShare, FiniteSetTheorems, TLAPS

-----------------------------------------------------------------------------
LEMMA InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv
  OBVIOUS
<1>1. PICK h \in Ids, p \in Places : /\ own = {h} /\ at = [i \in Ids |-> p] /\ bor = {}
            /\ cnt = 1 /\ phase = "shared" /\ closer = p
            /\ acc = {} /\ know = [q \in Places |-> {}] /\ rel = {}
  BY DEF Init
<1>2. IsFiniteSet(own) /\ Cardinality(own) = 1
  BY <1>1, FS_Singleton
<1>3. TypeOK
  BY <1>1 DEF TypeOK
<1> QED
  BY <1>1, <1>2, <1>3 DEF Inv, Once, Known, Safe

LEMMA Empty == ASSUME Inv PROVE cnt = 0 <=> own = {}
  BY FS_EmptySet DEF Inv

LEMMA NextInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE DEF Inv, TypeOK, Once, Safe, Known
<1>1. ASSUME NEW p \in Places, NEW h \in Ids, NEW a \in Ids, Read(p, h, a) PROVE Inv'
  <2>1. TypeOK' BY <1>1 DEF Read, Access
  <2>2. \A x \in acc' : Known(x)'
    <3> SUFFICES ASSUME NEW x \in acc' PROVE Known(x)'
      OBVIOUS
    <3>1. CASE x = a BY <1>1, <3>1 DEF Read, Access, Uses
    <3>2. CASE x \in acc
      <4>1. Known(x) BY <1>1, <3>2 DEF Read, Uses
      <4> QED BY <1>1, <4>1 DEF Read, Access
    <3> QED BY <1>1, <3>1, <3>2 DEF Read, Access
  <2> QED BY <1>1, <2>1, <2>2 DEF Read, Access, Uses
<1>2. ASSUME NEW p \in Places, NEW h \in Ids, NEW g \in Ids, NEW a \in Ids, Clone(p, h, g, a) PROVE Inv'
  <2>1. TypeOK' BY <1>2 DEF Clone, Access
  <2>2. IsFiniteSet(own') /\ cnt' = Cardinality(own')
    BY <1>2, FS_AddElement DEF Clone
  <2>3. \A x \in acc' : Known(x)'
    <3> SUFFICES ASSUME NEW x \in acc' PROVE Known(x)'
      OBVIOUS
    <3>1. CASE x = a BY <1>2, <3>1 DEF Clone, Access, Uses
    <3>2. CASE x \in acc
      <4>1. Known(x) BY <1>2, <3>2 DEF Clone, Uses
      <4>2. ASSUME NEW i \in own, x \in know[at[i]] PROVE Known(x)'
        <5>1. i # g /\ i \in own' /\ at'[i] = at[i] BY <1>2, <4>2 DEF Clone
        <5> QED BY <1>2, <4>2, <5>1 DEF Clone, Access
      <4> QED BY <1>2, <4>1, <4>2 DEF Clone, Access
    <3> QED BY <1>2, <3>1, <3>2 DEF Clone, Access
  <2> QED BY <1>2, <2>1, <2>2, <2>3 DEF Clone, Access, Uses
<1>3. ASSUME NEW h \in Ids, NEW q \in Places, Move(h, q) PROVE Inv'
  <2>1. TypeOK' BY <1>3 DEF Move
  <2>2. \A x \in acc : Known(x) => Known(x)'
    <3> SUFFICES ASSUME NEW x \in acc, Known(x) PROVE Known(x)'
      OBVIOUS
    <3>1. ASSUME NEW i \in own, x \in know[at[i]] PROVE Known(x)'
      <4>1. CASE i = h BY <1>3, <3>1, <4>1 DEF Move
      <4>2. CASE i # h BY <1>3, <3>1, <4>2 DEF Move
      <4> QED BY <4>1, <4>2
    <3> QED BY <1>3, <3>1 DEF Move
  <2> QED BY <1>3, <2>1, <2>2 DEF Move
<1>4. ASSUME NEW h \in Ids, NEW q \in Places, Borrow(h, q) PROVE Inv'
  <2>1. TypeOK' BY <1>4 DEF Borrow
  <2>2. \A x \in acc : Known(x) => Known(x)'
    BY <1>4 DEF Borrow
  <2> QED BY <1>4, <2>1, <2>2 DEF Borrow
<1>5. ASSUME NEW h \in Ids, NEW q \in Places, Return(h, q) PROVE Inv'
  <2>1. TypeOK' BY <1>5 DEF Return
  <2>2. \A x \in acc : Known(x) => Known(x)'
    <3> SUFFICES ASSUME NEW x \in acc, Known(x) PROVE Known(x)'
      OBVIOUS
    <3>1. ASSUME NEW b \in bor, x \in know[b[2]] PROVE Known(x)'
      <4>1. CASE b = <<h, q>> BY <1>5, <3>1, <4>1 DEF Return
      <4>2. CASE b # <<h, q>> BY <1>5, <3>1, <4>2 DEF Return
      <4> QED BY <4>1, <4>2
    <3> QED BY <1>5, <3>1 DEF Return
  <2> QED BY <1>5, <2>1, <2>2 DEF Return
<1>6. ASSUME NEW h \in Ids, NEW a \in Ids, Drop(h, a) PROVE Inv'
  <2>0. h \in own /\ phase = "shared" /\ at[h] \in Places BY <1>6 DEF Drop
  <2>1. TypeOK'
    <3>1. cnt # 0 BY <2>0, Empty
    <3> QED BY <1>6, <2>0, <3>1 DEF Drop, Access
  <2>2. IsFiniteSet(own') /\ cnt' = Cardinality(own')
    BY <1>6, <2>0, FS_RemoveElement DEF Drop
  <2>3. cnt = 1 <=> own' = {}
    BY <1>6, <2>1, <2>2, FS_EmptySet DEF Drop
  <2>4. Once' BY <1>6, <2>0, <2>3 DEF Drop
  <2>5. \A b \in bor' : b[1] \in own' BY <1>6, <2>0 DEF Drop, Free
  <2>6. \A x \in acc' : Known(x)'
    <3> SUFFICES ASSUME NEW x \in acc' PROVE Known(x)'
      OBVIOUS
    <3>1. CASE x = a BY <1>6, <2>0, <3>1 DEF Drop, Access
    <3>2. CASE x \in acc
      <4>1. Known(x) BY <2>0, <3>2
      <4>2. ASSUME NEW i \in own, x \in know[at[i]] PROVE Known(x)'
        <5>1. CASE i = h BY <1>6, <2>0, <4>2, <5>1 DEF Drop, Access
        <5>2. CASE i # h BY <1>6, <2>0, <4>2, <5>2 DEF Drop, Access
        <5> QED BY <5>1, <5>2
      <4> QED BY <1>6, <2>0, <4>1, <4>2 DEF Drop, Access
    <3> QED BY <1>6, <3>1, <3>2 DEF Drop, Access
  <2>7. phase' \in {"shared", "last"} BY <1>6, <2>0 DEF Drop
  <2> QED BY <2>1, <2>2, <2>4, <2>5, <2>6, <2>7
<1>7. ASSUME NEW a \in Ids, Acquire(a) PROVE Inv'
  <2>1. TypeOK' BY <1>7 DEF Acquire
  <2>2. own = {} /\ bor = {} BY <1>7 DEF Acquire
  <2>3. acc \subseteq rel BY <1>7, <2>2 DEF Acquire
  <2>4. acc' \subseteq know'[closer'] BY <1>7, <2>3 DEF Acquire
  <2> QED BY <1>7, <2>1, <2>2, <2>4 DEF Acquire
<1>8. ASSUME Release PROVE Inv'
  BY <1>8 DEF Release
<1>9. ASSUME NEW p \in Places, NEW q \in Places, Meet(p, q) PROVE Inv'
  <2>1. TypeOK' BY <1>9 DEF Meet
  <2>2. \A x \in acc : Known(x) => Known(x)' BY <1>9 DEF Meet
  <2> QED BY <1>9, <2>1, <2>2 DEF Meet
<1>10. CASE UNCHANGED vars BY <1>10 DEF vars
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10 DEF Next

THEOREM Correct == Spec => [](Safe /\ Held)
<1>1. Inv => Safe /\ Held BY DEF Inv, Held, Once
<1> QED BY InitInv, NextInv, <1>1, PTL DEF Spec
=============================================================================
