------------------------------ MODULE ArcShare ------------------------------
(***************************************************************************)
(* The protocol of the reference count of one shared green element, for    *)
(* any number of threads, handles and operations; proved in ArcProof.      *)
(* MCArc explores the same protocol step by step, within bounds, and is    *)
(* bound to the code by recorded and by replayed schedules.                *)
(*                                                                         *)
(* Happens-before is kept as sets: know[p] are the accesses to the element *)
(* that happened before the present of place p.  A place is a thread, or   *)
(* an object that owns handles (a parent node owns one to each child; what *)
(* happened before its own count was decremented is what it knows).        *)
(*                                                                         *)
(*   Read    through a handle, one's own or a borrowed one                 *)
(*   Clone   a relaxed increment                                           *)
(*   Move    of a handle to another place, which learns what the first     *)
(*           knows (a send, a join, becoming the last owner of a parent)   *)
(*   Borrow  of a handle by another place, and Return of it                *)
(*   Drop    a releasing decrement; who finds a count of 1 is the closer   *)
(*   Acquire the acquiring load of the closer                              *)
(*   Release of the memory by the closer                                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Places, Ids

VARIABLES own,    \* handles in existence
          at,     \* handle -> place that owns it
          bor,    \* borrowed handles: <<handle, place>>
          cnt,    \* the count
          phase,  \* "shared", "last", "acquired", "released"
          closer, \* who decremented last
          acc,    \* accesses to the element so far
          know,   \* place -> accesses known to it
          rel     \* accesses published by decrements
vars == <<own, at, bor, cnt, phase, closer, acc, know, rel>>

TypeOK == /\ own \subseteq Ids /\ at \in [Ids -> Places]
          /\ bor \subseteq Ids \X Places
          /\ cnt \in Nat
          /\ phase \in {"shared", "last", "acquired", "released"}
          /\ closer \in Places
          /\ acc \subseteq Ids /\ know \in [Places -> SUBSET Ids] /\ rel \subseteq Ids

Init == \E h \in Ids, p \in Places :
            /\ own = {h} /\ at = [i \in Ids |-> p] /\ bor = {}
            /\ cnt = 1 /\ phase = "shared" /\ closer = p
            /\ acc = {} /\ know = [q \in Places |-> {}] /\ rel = {}

\* place p accesses the element; a names the access
Access(p, a) == acc' = acc \cup {a} /\ know' = [know EXCEPT ![p] = @ \cup {a}]
Uses(p, h) == h \in own /\ (at[h] = p \/ <<h, p>> \in bor)

Read(p, h, a) == /\ Uses(p, h) /\ Access(p, a)
                 /\ UNCHANGED <<own, at, bor, cnt, phase, closer, rel>>
Clone(p, h, g, a) ==
    /\ Uses(p, h) /\ g \notin own /\ Access(p, a)
    /\ own' = own \cup {g} /\ at' = [at EXCEPT ![g] = p] /\ cnt' = cnt + 1
    /\ UNCHANGED <<bor, phase, closer, rel>>
Free(h) == \A p \in Places : <<h, p>> \notin bor
Move(h, q) ==
    /\ h \in own /\ Free(h)
    /\ at' = [at EXCEPT ![h] = q]
    /\ know' = [know EXCEPT ![q] = @ \cup know[at[h]]]
    /\ UNCHANGED <<own, bor, cnt, phase, closer, acc, rel>>
Borrow(h, q) ==
    /\ h \in own
    /\ bor' = bor \cup {<<h, q>>}
    /\ UNCHANGED <<own, at, cnt, phase, closer, acc, know, rel>>
Return(h, q) ==
    /\ <<h, q>> \in bor
    /\ bor' = bor \ {<<h, q>>}
    /\ know' = [know EXCEPT ![at[h]] = @ \cup know[q]]
    /\ UNCHANGED <<own, at, cnt, phase, closer, acc, rel>>
Drop(h, a) ==
    LET p == at[h]
    IN /\ h \in own /\ Free(h) /\ Access(p, a)
       /\ own' = own \ {h} /\ cnt' = cnt - 1
       /\ rel' = rel \cup know'[p]
       /\ IF cnt = 1 THEN phase' = "last" /\ closer' = p ELSE UNCHANGED <<phase, closer>>
       /\ UNCHANGED <<at, bor>>
Acquire(a) ==
    /\ phase = "last" /\ phase' = "acquired"
    /\ acc' = acc \cup {a}
    /\ know' = [know EXCEPT ![closer] = @ \cup rel \cup {a}]
    /\ UNCHANGED <<own, at, bor, cnt, closer, rel>>
Release ==
    /\ phase = "acquired" /\ phase' = "released"
    /\ UNCHANGED <<own, at, bor, cnt, closer, acc, know, rel>>
\* places learn of each other in other ways, too
Meet(p, q) == /\ know' = [know EXCEPT ![q] = @ \cup know[p]]
              /\ UNCHANGED <<own, at, bor, cnt, phase, closer, acc, rel>>

Next == \/ \E p \in Places, h \in Ids, a \in Ids : Read(p, h, a)
        \/ \E p \in Places, h \in Ids, g \in Ids, a \in Ids : Clone(p, h, g, a)
        \/ \E h \in Ids, q \in Places : Move(h, q) \/ Borrow(h, q) \/ Return(h, q)
        \/ \E h \in Ids, a \in Ids : Drop(h, a)
        \/ \E a \in Ids : Acquire(a)
        \/ Release
        \/ \E p \in Places, q \in Places : Meet(p, q)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What is promised *)

\* memory is released only after everything else done to it
Safe == phase \in {"acquired", "released"} => acc \subseteq know[closer]
\* whoever may access it finds it there
Held == own # {} => phase = "shared"
\* nobody else decides that it is the last
Once == phase = "shared" <=> own # {}

Known(a) == \/ a \in rel
            \/ \E h \in own : a \in know[at[h]]
            \/ \E b \in bor : a \in know[b[2]]

Inv == /\ TypeOK
       /\ IsFiniteSet(own) /\ cnt = Cardinality(own)
       /\ \A b \in bor : b[1] \in own
       /\ Once
       /\ \A a \in acc : phase \in {"shared", "last"} => Known(a)
       /\ Safe

=============================================================================
