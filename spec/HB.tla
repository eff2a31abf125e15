--------------------------------- MODULE HB ---------------------------------
(***************************************************************************)
(* Happens-before under the C++/Rust memory model, for executions in which *)
(* every atomic operation sees the latest value of its location.           *)
(*                                                                         *)
(*  vc[t]    what happened before the present of thread t (vector clock)   *)
(*  rel[x]   what an acquiring read of location x learns                   *)
(*  pend[t]  what an acquire fence of t would learn                        *)
(*  frel[t]  what the last release fence of t published                    *)
(* Orders: 0 relaxed, 1 acquire, 2 release, 3 both (also sequentially      *)
(* consistent). Operations: "load", "store", "update", "fence".            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Acq(o) == o \in {1, 3}
Rel(o) == o \in {2, 3}

Max2(a, b) == IF a < b THEN b ELSE a
Join(a, b) == [t \in DOMAIN a |-> Max2(a[t], b[t])]
Zero(Ts) == [t \in Ts |-> 0]
Tick(v, t) == [v EXCEPT ![t] = @ + 1]

HBInit(Ts) == [vc |-> [t \in Ts |-> [u \in Ts |-> IF t = u THEN 1 ELSE 0]],
               rel |-> <<>>, pend |-> [t \in Ts |-> Zero(Ts)], frel |-> [t \in Ts |-> Zero(Ts)]]
RelOf(h, x, z) == IF x \in DOMAIN h.rel THEN h.rel[x] ELSE z
SetRel(h, x, c) == IF x \in DOMAIN h.rel THEN [h.rel EXCEPT ![x] = c] ELSE h.rel @@ (x :> c)

\* thread t performs an atomic operation at location x
Atomic(h, t, x, op, o) ==
    LET z == Zero(DOMAIN h.vc)
        reads == op \in {"load", "update"}
        writes == op \in {"store", "update"}
        seen == IF reads THEN RelOf(h, x, z) ELSE z
        vc1 == IF op = "fence" THEN IF Acq(o) THEN Join(h.vc[t], h.pend[t]) ELSE h.vc[t]
               ELSE IF reads /\ Acq(o) THEN Join(h.vc[t], seen) ELSE h.vc[t]
        pub == IF Rel(o) THEN vc1 ELSE h.frel[t]
        \* an update continues the release sequences it reads from, a store starts anew
        rel1 == IF ~writes THEN h.rel
                ELSE SetRel(h, x, IF op = "update" THEN Join(pub, RelOf(h, x, z)) ELSE pub)
    IN [vc   |-> [h.vc EXCEPT ![t] = Tick(vc1, t)],
        rel  |-> rel1,
        pend |-> IF reads /\ ~Acq(o) THEN [h.pend EXCEPT ![t] = Join(@, seen)] ELSE h.pend,
        frel |-> IF op = "fence" /\ Rel(o) THEN [h.frel EXCEPT ![t] = vc1] ELSE h.frel]

\* thread t learns everything in clock c
Learn(h, t, c) == [h EXCEPT !.vc[t] = Join(@, c)]
Advance(h, t) == [h EXCEPT !.vc[t] = Tick(@, t)]

\* accesses: [t -> time of the last access], all of them before the present of t
Before(h, acc, t) == \A u \in DOMAIN acc : acc[u] <= h.vc[t][u]
Touch(acc, h, t) == [acc EXCEPT ![t] = h.vc[t][t]]
=============================================================================
