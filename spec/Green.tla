------------------------------- MODULE Green -------------------------------
(***************************************************************************)
(* Green trees are values:                                                 *)
(*   token  [n |-> 0, k |-> kind, t |-> text, c |-> <<>>]                  *)
(*   node   [n |-> 1, k |-> kind, t |-> <<>>, c |-> children]              *)
(***************************************************************************)
EXTENDS Txt

GTok(k, t)  == [n |-> 0, k |-> k, t |-> t, c |-> <<>>]
GNode(k, c) == [n |-> 1, k |-> k, t |-> <<>>, c |-> c]

RECURSIVE GText(_)
GText(g) == IF g.n = 0 THEN g.t
            ELSE FoldLeft(LAMBDA a, x : a \o GText(x), <<>>, g.c)

RECURSIVE GLen(_)
GLen(g) == IF g.n = 0 THEN BLen(g.t)
           ELSE FoldLeft(LAMBDA a, x : a + GLen(x), 0, g.c)

RECURSIVE GSize(_)
GSize(g) == FoldLeft(LAMBDA a, x : a + GSize(x), 1, g.c)

\* the element at a path (a sequence of 0-based child indices)
RECURSIVE GAt(_, _)
GAt(g, p) == IF p = <<>> THEN g ELSE GAt(g.c[Head(p) + 1], Tail(p))

\* children lo..hi-1 (0-based) of a sequence replaced by ins
SpliceSeq(s, lo, hi, ins) == SubSeq(s, 1, lo) \o ins \o SubSeq(s, hi + 1, Len(s))

GSplice(g, lo, hi, ins) == [g EXCEPT !.c = SpliceSeq(g.c, lo, hi, ins)]
GReplaceChild(g, i, x)  == GSplice(g, i, i + 1, <<x>>)
GInsertChild(g, i, x)   == GSplice(g, i, i, <<x>>)
GRemoveChild(g, i)      == GSplice(g, i, i + 1, <<>>)

\* the tree with the element at a path replaced
RECURSIVE GReplaceAt(_, _, _)
GReplaceAt(g, p, x) ==
    IF p = <<>> THEN x
    ELSE GReplaceChild(g, Head(p), GReplaceAt(g.c[Head(p) + 1], Tail(p), x))

\* preorder list of [n, k, d, s, e, t]: element, depth, byte range, text
RECURSIVE GFlat(_, _, _)
GFlat(g, d, s) ==
    LET me == [n |-> g.n, k |-> g.k, d |-> d, s |-> s, e |-> s + GLen(g), t |-> g.t]
        step(a, x) == [l |-> a.l \o GFlat(x, d + 1, a.o), o |-> a.o + GLen(x)]
    IN FoldLeft(step, [l |-> <<me>>, o |-> s], g.c).l
=============================================================================
