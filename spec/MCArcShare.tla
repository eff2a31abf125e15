----------------------------- MODULE MCArcShare -----------------------------
(***************************************************************************)
(* ArcShare within bounds. WEAK names a mistake that its laws have to      *)
(* notice: "sub" a decrement that publishes nothing, "load" a closer that  *)
(* acquires nothing, "split" increments that are not counted when another  *)
(* place borrows, "early" the last but one owner closes.                   *)
(***************************************************************************)
EXTENDS ArcShare, IOUtils, TLC

N == atoi(IOEnv.THREADS)
K == atoi(IOEnv.OPS)
WEAK == IF "WEAK" \in DOMAIN IOEnv THEN IOEnv.WEAK ELSE ""
MCPlaces == 1..N
MCIds == 1..K

\* accesses and handles are named in turn
Fresh(a) == a = Cardinality(acc) + 1

WRead(p, h, a) == /\ Uses(p, h) /\ Fresh(a) /\ Access(p, a)
                  /\ UNCHANGED <<own, at, bor, cnt, phase, closer, rel>>
WClone(p, h, g, a) ==
    /\ Uses(p, h) /\ g \notin own /\ (\A i \in 1..(g - 1) : i \in own) /\ Fresh(a) /\ Access(p, a)
    /\ own' = own \cup {g} /\ at' = [at EXCEPT ![g] = p]
    /\ cnt' = IF WEAK = "split" /\ bor # {} THEN cnt ELSE cnt + 1
    /\ UNCHANGED <<bor, phase, closer, rel>>
WDrop(h, a) ==
    LET p == at[h]
    IN /\ h \in own /\ Free(h) /\ Fresh(a) /\ Access(p, a)
       /\ own' = own \ {h} /\ cnt' = cnt - 1
       /\ rel' = IF WEAK = "sub" THEN rel ELSE rel \cup know'[p]
       /\ IF cnt = (IF WEAK = "early" THEN 2 ELSE 1) THEN phase' = "last" /\ closer' = p ELSE UNCHANGED <<phase, closer>>
       /\ UNCHANGED <<at, bor>>
WAcquire(a) ==
    /\ phase = "last" /\ phase' = "acquired" /\ Fresh(a)
    /\ acc' = acc \cup {a}
    /\ know' = [know EXCEPT ![closer] = @ \cup (IF WEAK = "load" THEN {} ELSE rel) \cup {a}]
    /\ UNCHANGED <<own, at, bor, cnt, closer, rel>>
=============================================================================
