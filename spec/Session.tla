------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A client session: a forest of elements, handles to elements, green      *)
(* trees held as snapshots, and running iterators.  One action per public  *)
(* operation that changes something; queries are the operators of Forest.  *)
(***************************************************************************)
EXTENDS Forest

CONSTANTS Handles,   \* names of handle slots
          Slots,     \* names of green slots
          Iters      \* names of iterator slots

VARIABLES S,    \* store
          H,    \* handle -> element, 0 when free
          G,    \* green slot -> <<>> or <<green value>>
          It    \* iterator slot -> iterator state

vars == <<S, H, G, It>>

\* iterators: over a fixed sequence (what remains of it), or walks
NoIter == [k |-> "none", rem |-> <<>>, x |-> 0, tok |-> 0, ev |-> <<>>, skip |-> FALSE, done |-> FALSE]

SInit == /\ S = NoStore
         /\ H = [h \in Handles |-> 0]
         /\ G = [g \in Slots |-> None]
         /\ It = [i \in Iters |-> NoIter]

Live == {h \in Handles : H[h] # 0}

-----------------------------------------------------------------------------
MakeGreen(d, g) == G' = [G EXCEPT ![d] = Some(g)] /\ UNCHANGED <<S, H, It>>

NewRoot(g, d, m) ==
    LET f == Plant(S, G[g][1], m)
    IN S' = f.s /\ H' = [H EXCEPT ![d] = f.r] /\ UNCHANGED <<G, It>>

\* store the element x (or nothing) in handle d; d = 0: the result is dropped
Keep(d, r) == H' = IF d = 0 \/ r = None THEN H ELSE [H EXCEPT ![d] = r[1]]

Step(h, op, K, d) == Keep(d, Nav(S, H[h], op, K)) /\ UNCHANGED <<S, G, It>>

\* the consuming steps give up the handle they start from
StepConsume(h, op, K, d) ==
    LET r == Nav(S, H[h], op, K)
        H1 == [H EXCEPT ![h] = 0]
    IN /\ H' = IF d = 0 \/ r = None THEN H1 ELSE [H1 EXCEPT ![d] = r[1]]
       /\ UNCHANGED <<S, G, It>>

Drop(h) == H' = [H EXCEPT ![h] = 0] /\ UNCHANGED <<S, G, It>>
DropGreen(g) == G' = [G EXCEPT ![g] = None] /\ UNCHANGED <<S, H, It>>

DoCloneForUpdate(h, d) ==
    LET f == CloneForUpdate(S, H[h])
    IN S' = f.s /\ H' = [H EXCEPT ![d] = f.r] /\ UNCHANGED <<G, It>>
DoCloneSubtree(h, d) ==
    LET f == CloneSubtree(S, H[h])
    IN S' = f.s /\ H' = [H EXCEPT ![d] = f.r] /\ UNCHANGED <<G, It>>
Snapshot(h, d) == G' = [G EXCEPT ![d] = Some(Val(S, H[h]))] /\ UNCHANGED <<S, H, It>>

MayEdit(h) == S[H[h]].m = 1

DoDetach(h) == S' = (IF MayEdit(h) THEN Detach(S, H[h]) ELSE S) /\ UNCHANGED <<H, G, It>>
DoSplice(h, lo, hi, ins) ==
    /\ S' = IF MayEdit(h) THEN Splice(S, H[h], lo, hi, MapSeq(ins, LAMBDA q : H[q])).s ELSE S
    /\ UNCHANGED <<H, G, It>>
SpliceOk(h, lo, hi, ins) ==
    MayEdit(h) /\ Splice(S, H[h], lo, hi, MapSeq(ins, LAMBDA q : H[q])).ok

\* The elements to insert come out of an iterator over another node.  Asked
\* for the n-th element, the iterator panics (n = 0: it never does); by then
\* the elements it gave may have been inserted, or some of them.
MoveSeq(from, op, K, n) ==
    LET xs == SeqBy(S, H[from], op, K)
    IN IF n = 0 \/ n > Len(xs) THEN xs ELSE SubSeq(xs, 1, n - 1)
MoveAsks(from, op, K, n) == n > 0 /\ n <= Len(SeqBy(S, H[from], op, K)) + 1
MoveDone(h, lo, hi, xs) == IF MayEdit(h) THEN Splice(S, H[h], lo, hi, xs) ELSE [s |-> S, i |-> lo, ok |-> FALSE]
DoMove(h, lo, hi, xs) == S' = MoveDone(h, lo, hi, xs).s /\ UNCHANGED <<H, G, It>>

\* Client code that the library calls in the middle of an operation does
\* something of its own (did: whether it was called often enough): that is all
\* that happens.
DoAside(act, vic, to, at, did) ==
    IF ~did THEN UNCHANGED vars
    ELSE CASE act = "detach" -> DoDetach(vic)
           [] act = "splice" -> DoSplice(to, at, at, <<vic>>)
           [] act = "drop"   -> Drop(vic)
           [] OTHER -> UNCHANGED vars

\* "for c in children { if mask { c.detach() } }": mask[i] for the i-th visited
DoLoop(h, op, K, mask) ==
    LET xs == SeqBy(S, H[h], op, K)
    IN /\ S' = FoldLeft(LAMBDA a, i : IF i <= Len(mask) /\ mask[i] = 1 THEN Detach(a, xs[i]) ELSE a,
                        S, [i \in 1..Len(xs) |-> i])
       /\ UNCHANGED <<H, G, It>>

DoReplace(h, g, d) == /\ G' = [G EXCEPT ![d] = Some(ReplaceWith(S, H[h], G[g][1]))]
                      /\ UNCHANGED <<S, H, It>>

-----------------------------------------------------------------------------
(* Iterators *)
ItNew(i, h, op, K) ==
    /\ It' = [It EXCEPT ![i] = [NoIter EXCEPT !.k = "seq", !.rem = SeqBy(S, H[h], op, K)]]
    /\ UNCHANGED <<S, H, G>>
ItNext(i, d) ==
    LET rem == It[i].rem
    IN /\ It' = [It EXCEPT ![i].rem = IF rem = <<>> THEN <<>> ELSE Tail(rem)]
       /\ Keep(d, First(rem))
       /\ UNCHANGED <<S, G>>
\* adaptors: "nth" passes over n elements, "last", "count" and "rest" use the
\* iterator up, "hint" only asks
ItAdapt(i, op, n, d) ==
    LET rem  == It[i].rem
        left == SubSeq(rem, n + 1, Len(rem))
    IN /\ It' = [It EXCEPT ![i] = CASE op = "nth" -> [@ EXCEPT !.rem = SubSeq(rem, n + 2, Len(rem))]
                                    [] op = "hint" -> @
                                    [] OTHER -> NoIter]
       /\ Keep(d, CASE op = "nth" -> First(left)
                    [] op = "last" /\ rem # <<>> -> Some(rem[Len(rem)])
                    [] OTHER -> None)
       /\ UNCHANGED <<S, G>>
ItAnswer(i, op, n) ==
    LET rem == It[i].rem
    IN CASE op = "nth"  -> First(SubSeq(rem, n + 1, Len(rem)))
         [] op = "last" -> IF rem = <<>> THEN <<>> ELSE <<rem[Len(rem)]>>
         [] OTHER -> rem
ItClone(i, j)   == It' = [It EXCEPT ![j] = It[i]] /\ UNCHANGED <<S, H, G>>
ItByKind(i, K)  == It' = [It EXCEPT ![i].rem = OfKinds(S, @, K)] /\ UNCHANGED <<S, H, G>>
ItDrop(i)       == It' = [It EXCEPT ![i] = NoIter] /\ UNCHANGED <<S, H, G>>

WalkNew(i, h, tok) ==
    /\ It' = [It EXCEPT ![i] = [NoIter EXCEPT !.k = "walk", !.x = H[h], !.tok = tok]]
    /\ UNCHANGED <<S, H, G>>
WalkResult(w) == IF w.done THEN None
                 ELSE IF w.ev = <<>> THEN Some(<<1, w.x>>)
                 ELSE WalkNext(S, w.x, w.tok, w.ev, w.skip)
DoWalkNext(i, d) ==
    LET r == WalkResult(It[i])
    IN /\ It' = [It EXCEPT ![i] = [@ EXCEPT !.ev = IF r = None THEN @ ELSE r[1],
                                            !.done = (r = None), !.skip = FALSE]]
       /\ Keep(d, IF r = None THEN None ELSE Some(r[1][2]))
       /\ UNCHANGED <<S, G>>
WalkSkip(i) == It' = [It EXCEPT ![i].skip = TRUE] /\ UNCHANGED <<S, H, G>>
=============================================================================
