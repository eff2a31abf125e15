----------------------------- MODULE HeapTrace -----------------------------
(***************************************************************************)
(* What the library holds in memory, on top of SessionTrace.               *)
(*                                                                         *)
(* Cursors.  In a mutable tree every element has at most one cursor, which *)
(* exists as long as a handle denotes the element or one below it.  In an  *)
(* immutable tree every handle has a chain of cursors, from the root to    *)
(* the element; a handle reached from another shares the part of the chain *)
(* above which their paths split, all others on the way are new.           *)
(*                                                                         *)
(* Green elements.  Those reachable from slots and from the roots of trees *)
(* with handles, and everything a live cache has interned.                 *)
(***************************************************************************)
EXTENDS SessionTrace, Builder

VARIABLES RC,   \* handle -> chain of cursors (immutable trees)
          IC,   \* iterator -> [el: element last returned, ch: its chain]
          nx,   \* next cursor
          ex,   \* the number of cursors is known (no iterator was cloned)
          CT    \* what the cache has interned: <<key, id>>

hvars == <<vars, l, RC, IC, nx, ex, CT>>

NoChain == [el |-> 0, ch |-> <<>>]
HInit == /\ TInit
         /\ RC = [h \in Handles |-> <<>>] /\ IC = [i \in Iters |-> NoChain]
         /\ nx = 0 /\ ex = TRUE /\ CT = {}

RECURSIVE Common(_, _)
Common(p, q) == IF p = <<>> \/ q = <<>> \/ Head(p) # Head(q) THEN 0 ELSE 1 + Common(Tail(p), Tail(q))

\* chain of element y when reached from element x with chain ch
Chain(x, ch, y) ==
    IF S[y].m = 1 THEN <<>>
    ELSE LET c == Common(Path(S, x), Path(S, y))
             n == Len(Path(S, y)) - c
         IN SubSeq(ch, 1, c + 1) \o [i \in 1..n |-> nx + i]

\* the element (if any) that the event stores in handle e.d
Set(e, x, ch) ==
    LET y == H'[e.d]
    IN RC' = [RC EXCEPT ![e.d] = Chain(x, ch, y)]
Stored(e, r) == e.d # 0 /\ r # None

Cursors(e) ==
    CASE e.a \in {"root", "csub", "acsub"} ->
            /\ RC' = [RC EXCEPT ![e.d] = IF H'[e.d] # 0 /\ S'[H'[e.d]].m = 0 THEN <<nx + 1>> ELSE <<>>]
            /\ nx' = nx + 1 /\ UNCHANGED <<IC, ex>>
      [] e.a \in {"cfu", "acfu"} -> RC' = [RC EXCEPT ![e.d] = <<>>] /\ UNCHANGED <<IC, nx, ex>>
      [] e.a \in {"step", "goto"} ->
            /\ IF Stored(e, e.r) THEN Set(e, H[e.h], RC[e.h]) ELSE RC' = RC
            /\ nx' = nx + 100 /\ UNCHANGED <<IC, ex>>
      [] e.a = "stepc" ->
            /\ RC' = LET r1 == [RC EXCEPT ![e.h] = <<>>]
                     IN IF Stored(e, e.r) THEN [r1 EXCEPT ![e.d] = Chain(H[e.h], RC[e.h], H'[e.d])] ELSE r1
            /\ nx' = nx + 100 /\ UNCHANGED <<IC, ex>>
      [] e.a = "drop" -> RC' = [RC EXCEPT ![e.h] = <<>>] /\ UNCHANGED <<IC, nx, ex>>
      [] e.a = "aside" /\ e.act = "drop" /\ e.did = 1 -> RC' = [RC EXCEPT ![e.vic] = <<>>] /\ UNCHANGED <<IC, nx, ex>>
      [] e.a \in {"it", "walk"} -> IC' = [IC EXCEPT ![e.i] = [el |-> H[e.h], ch |-> RC[e.h]]] /\ UNCHANGED <<RC, nx, ex>>
      [] e.a = "itn" ->
            LET r == First(It[e.i].rem)
            IN IF r = None THEN UNCHANGED <<RC, IC, nx, ex>>
               ELSE LET c == Chain(IC[e.i].el, IC[e.i].ch, r[1])
                    IN /\ IC' = [IC EXCEPT ![e.i] = [el |-> r[1], ch |-> c]]
                       /\ RC' = IF e.d # 0 THEN [RC EXCEPT ![e.d] = c] ELSE RC
                       /\ nx' = nx + 100 /\ ex' = ex
      [] e.a = "itx" ->
            LET r == IF e.op \in {"nth", "last"} THEN ItAnswer(e.i, e.op, e.n) ELSE None
            IN IF r = None THEN UNCHANGED <<RC, IC, nx, ex>>
               ELSE LET c == Chain(IC[e.i].el, IC[e.i].ch, r[1])
                    IN /\ IC' = [IC EXCEPT ![e.i] = [el |-> r[1], ch |-> c]]
                       /\ RC' = IF e.d # 0 THEN [RC EXCEPT ![e.d] = c] ELSE RC
                       /\ nx' = nx + 100 /\ ex' = ex
      [] e.a = "walkn" ->
            LET r == WalkResult(It[e.i])
            IN IF r = None THEN UNCHANGED <<RC, IC, nx, ex>>
               ELSE LET c == Chain(IC[e.i].el, IC[e.i].ch, r[1][2])
                    IN /\ IC' = [IC EXCEPT ![e.i] = [el |-> r[1][2], ch |-> c]]
                       /\ RC' = IF e.d # 0 THEN [RC EXCEPT ![e.d] = c] ELSE RC
                       /\ nx' = nx + 100 /\ ex' = ex
      [] e.a = "itc" -> IC' = [IC EXCEPT ![e.j] = IC[e.i]] /\ ex' = FALSE /\ UNCHANGED <<RC, nx>>
      [] e.a = "reset" -> /\ RC' = [h \in Handles |-> <<>>] /\ IC' = [i \in Iters |-> NoChain]
                          /\ nx' = 0 /\ ex' = TRUE
      [] OTHER -> UNCHANGED <<RC, IC, nx, ex>>

Cache(e) ==
    CT' = IF e.a = "reset" THEN {}
          ELSE IF e.a = "green" /\ "ids" \in DOMAIN e
          THEN IF e.ids = <<>> THEN CT ELSE CT \cup SharedSet(e.g, e.ids)
          ELSE CT

RECURSIVE UpTo(_)
UpTo(x) == IF x = 0 THEN {} ELSE {x} \cup UpTo(S[x].p)
Mutables == { h \in Handles : H[h] # 0 /\ S[H[h]].m = 1 }
Immutables == { h \in Handles : H[h] # 0 /\ S[H[h]].m = 0 }
NumCursors == Cardinality(UNION { UpTo(H[h]) : h \in Mutables })
              + Cardinality(UNION { Range(RC[h]) : h \in Immutables })

QMem(e) ==
    LET ids == { e.gr[i][1] : i \in DOMAIN e.gr }
        closed == /\ Range(e.own) \subseteq ids
                  /\ \A i \in DOMAIN e.gr : Range(e.gr[i][2]) \subseteq ids
        greens == Cardinality(ids \cup { p[2] : p \in CT })
    IN /\ closed
       /\ Chk("blocks released twice", 0, e.df)
       /\ e.its = 0 /\ ex =>
            ChkIn(<<"blocks of", NumCursors, "cursors and", greens, "green elements">>, greens..(NumCursors + greens), e.n)

HStep(e) ==
    /\ IF e.a = "mem" THEN Same ELSE TStep(e)
    /\ Cursors(e) /\ Cache(e)
    /\ e.a = "mem" => QMem(e)
    /\ e.a = "reset" => Chk("blocks left, released twice, written to after release", <<0, 0, 0>>, e.left)

HNext == l <= Len(Trace) /\ HStep(Trace[l]) /\ l' = l + 1
HSpec == HInit /\ [][HNext]_hvars
=============================================================================
