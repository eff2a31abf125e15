------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The tree builder and the sharing promised by a node cache.              *)
(*                                                                         *)
(* A builder is a value                                                    *)
(*   [c  |-> the cache it uses (0: its own),                               *)
(*    ps |-> the open nodes, <<kind, position of the first child>>,        *)
(*    ks |-> the finished elements not adopted by a node yet,              *)
(*    cp |-> checkpoints: [at |-> position (-1: none),                     *)
(*                         d  |-> number of open nodes when it was taken,  *)
(*                         st |-> 1 when a node has swallowed it]]         *)
(***************************************************************************)
EXTENDS Green

NCP == 4
NoCp == [at |-> 0 - 1, d |-> 0, st |-> 0]
BNew(c) == [c |-> c, ps |-> <<>>, ks |-> <<>>, cp |-> [i \in 1..NCP |-> NoCp]]

\* calls: [o |-> "t"/"s"/"f"/"c"/"a", k |-> kind, t |-> text, i |-> checkpoint]
BTok(b, k, t) == [b EXCEPT !.ks = Append(@, GTok(k, t))]
BStart(b, k)  == [b EXCEPT !.ps = Append(@, <<k, Len(b.ks)>>)]
BFinOk(b)     == b.ps # <<>>
BFin(b) ==
    LET p == Last(b.ps)
    IN [b EXCEPT !.ps = Front(@),
                 !.ks = Append(SubSeq(@, 1, p[2]), GNode(p[1], SubSeq(@, p[2] + 1, Len(@)))),
                 !.cp = [i \in 1..NCP |-> IF @[i].at > p[2] \/ @[i].d >= Len(b.ps) THEN [@[i] EXCEPT !.st = 1] ELSE @[i]]]
BCp(b, i) == [b EXCEPT !.cp[i] = [at |-> Len(b.ks), d |-> Len(b.ps), st |-> 0]]
\* a checkpoint can be used while everything that was there before it is and
\* the node that was open then is the current one, or closed at that place
BAtOk(b, i) ==
    /\ b.cp[i].at >= 0
    /\ b.cp[i].at <= Len(b.ks)
    /\ b.ps # <<>> => b.cp[i].at >= Last(b.ps)[2]
BAt(b, i, k) == [b EXCEPT !.ps = Append(@, <<k, b.cp[i].at>>)]

CallOk(b, x) == CASE x.o = "f" -> BFinOk(b) [] x.o = "a" -> BAtOk(b, x.i) [] OTHER -> TRUE
\* a checkpoint whose position exists again is nobody's promise
CallMay(b, x) == x.o = "a" /\ BAtOk(b, x.i) /\ b.cp[x.i].st = 1
Call(b, x) ==
    CASE x.o = "t" -> BTok(b, x.k, x.t)
      [] x.o = "s" -> BStart(b, x.k)
      [] x.o = "f" -> BFin(b)
      [] x.o = "c" -> BCp(b, x.i)
      [] x.o = "a" -> BAt(b, x.i, x.k)

BEndOk(b) == Len(b.ks) = 1 /\ b.ks[1].n = 1
\* finishing with open nodes is not paired: nothing is promised
BEndMay(b) == b.ps # <<>>

-----------------------------------------------------------------------------
(* Sharing.  Elements made with one cache that have to be shared: tokens,  *)
(* and nodes of at most three children which have to be shared themselves. *)
(* Listed as <<key, id>>, where the key of a node has the ids of its       *)
(* children.  ids: the identities of the elements of g in preorder.        *)
RECURSIVE Shareds(_, _, _)
Shareds(g, ids, i) ==
    IF g.n = 0 THEN [j |-> i + 1, l |-> << << <<0, g.k, g.t>>, ids[i]>> >>, c |-> TRUE]
    ELSE LET step(a, x) == LET r == Shareds(x, ids, a.j)
                           IN [j |-> r.j, l |-> a.l \o r.l, c |-> a.c /\ r.c, h |-> Append(a.h, ids[a.j])]
             f == FoldLeft(step, [j |-> i + 1, l |-> <<>>, c |-> Len(g.c) <= 3, h |-> <<>>], g.c)
         IN [j |-> f.j, l |-> IF f.c THEN Append(f.l, << <<1, g.k, f.h>>, ids[i]>>) ELSE f.l, c |-> f.c]
SharedSet(g, ids) == ToSet(Shareds(g, ids, 1).l)

\* one object per key, one key per object
OneToOne(P) == /\ Cardinality({p[1] : p \in P}) = Cardinality(P)
               /\ Cardinality({p[2] : p \in P}) = Cardinality(P)
Clash(P) == { <<p, q>> \in P \X P : p # q /\ (p[1] = q[1] \/ p[2] = q[2]) }
=============================================================================
