-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Trees with very many children or very long texts, in compressed form,   *)
(* and every query and edit in closed form.  An element is                 *)
(*   [n |-> 1 node / 0 token, k |-> kind,                                  *)
(*    t |-> text as runs << code point, count >>,                          *)
(*    c |-> children as runs [u |-> element, n |-> count]]                 *)
(* In canonical form no two neighbouring runs are equal and none is empty. *)
(* Elements of a tree are addressed by paths of 0-based indices.  MCRuns   *)
(* checks every definition here against the explicit trees of Forest.      *)
(***************************************************************************)
EXTENDS Green

Run(u, n) == [u |-> u, n |-> n]
RTok(k, t)  == [n |-> 0, k |-> k, t |-> t, c |-> <<>>]
RNode(k, c) == [n |-> 1, k |-> k, t |-> <<>>, c |-> c]

-----------------------------------------------------------------------------
(* Runs of anything: records with a count n and a value u *)
NormRuns(rs) ==
    FoldLeft(LAMBDA a, r : IF r.n = 0 THEN a
                           ELSE IF a # <<>> /\ a[Len(a)].u = r.u THEN [a EXCEPT ![Len(a)].n = @ + r.n]
                           ELSE Append(a, r), <<>>, rs)
Count(rs) == FoldLeft(LAMBDA a, r : a + r.n, 0, rs)
TakeRuns(rs, i) ==
    FoldLeft(LAMBDA a, r : IF a.l = 0 THEN a
                           ELSE [l |-> a.l - MinOf(a.l, r.n), o |-> Append(a.o, [r EXCEPT !.n = MinOf(a.l, r.n)])],
             [l |-> i, o |-> <<>>], rs).o
DropRuns(rs, i) ==
    FoldLeft(LAMBDA a, r : [l |-> a.l - MinOf(a.l, r.n),
                            o |-> IF a.l >= r.n THEN a.o ELSE Append(a.o, [r EXCEPT !.n = @ - a.l])],
             [l |-> i, o |-> <<>>], rs).o
SpliceRuns(rs, lo, hi, ins) == NormRuns(TakeRuns(rs, lo) \o ins \o DropRuns(rs, hi))
UnitAt(rs, i) == \* the value at place i
    FoldLeft(LAMBDA a, r : IF a.i < 0 THEN a
                           ELSE IF a.i < r.n THEN [i |-> 0 - 1, u |-> <<r.u>>]
                           ELSE [a EXCEPT !.i = @ - r.n],
             [i |-> i, u |-> <<>>], rs).u[1]
\* least place >= from, greatest place < upto, whose value satisfies P; -1 when there is none
FirstIdx(rs, from, P(_)) ==
    FoldLeft(LAMBDA a, r : [i |-> a.i + r.n,
                            f |-> IF a.f >= 0 \/ r.n = 0 \/ a.i + r.n <= from \/ ~P(r.u) THEN a.f ELSE MaxOf(a.i, from)],
             [i |-> 0, f |-> 0 - 1], rs).f
LastIdx(rs, upto, P(_)) ==
    FoldLeft(LAMBDA a, r : [i |-> a.i + r.n,
                            f |-> IF r.n = 0 \/ a.i >= upto \/ ~P(r.u) THEN a.f ELSE MinOf(a.i + r.n, upto) - 1],
             [i |-> 0, f |-> 0 - 1], rs).f

-----------------------------------------------------------------------------
(* Texts as runs << code point, count >> *)
TNorm(t) ==
    FoldLeft(LAMBDA a, r : IF r[2] = 0 THEN a
                           ELSE IF a # <<>> /\ a[Len(a)][1] = r[1] THEN [a EXCEPT ![Len(a)][2] = @ + r[2]]
                           ELSE Append(a, r), <<>>, t)
TBytes(t) == FoldLeft(LAMBDA a, r : a + r[2] * CpLen(r[1]), 0, t)
RECURSIVE TTimes(_, _)
TTimes(t, n) == IF n = 0 \/ t = <<>> THEN <<>> ELSE IF Len(t) = 1 THEN << <<t[1][1], t[1][2] * n>> >>
                ELSE t \o TTimes(t, n - 1)
\* the first b bytes, and the rest (b on a character boundary)
TTake(t, b) ==
    FoldLeft(LAMBDA a, r : LET w == CpLen(r[1])
                               m == MinOf(r[2], a.b \div w)
                           IN IF m = 0 THEN [a EXCEPT !.b = 0] ELSE [b |-> a.b - m * w, o |-> Append(a.o, <<r[1], m>>)],
             [b |-> b, o |-> <<>>], t).o
TDrop(t, b) ==
    FoldLeft(LAMBDA a, r : LET w == CpLen(r[1])
                               m == MinOf(r[2], a.b \div w)
                           IN [b |-> a.b - m * w, o |-> IF m = r[2] THEN a.o ELSE Append(a.o, <<r[1], r[2] - m>>)],
             [b |-> b, o |-> <<>>], t).o
TSlice(t, s, e) == TDrop(TTake(t, e), s)
\* byte offset of the first c: <<>> or <<offset>>
TFind(t, c) ==
    FoldLeft(LAMBDA a, r : IF a.f # <<>> THEN a
                           ELSE IF r[1] = c THEN [a EXCEPT !.f = <<a.b>>]
                           ELSE [a EXCEPT !.b = @ + r[2] * CpLen(r[1])],
             [b |-> 0, f |-> <<>>], t).f
\* the character at a boundary: <<>> (at the end or beyond) or <<c>>
TCharAt(t, o) == LET d == TDrop(t, o) IN IF o >= TBytes(t) \/ d = <<>> THEN <<>> ELSE <<d[1][1]>>
TIsBound(t, o) == o <= TBytes(t) /\ TBytes(TTake(t, o)) = o

-----------------------------------------------------------------------------
(* Elements *)
RECURSIVE RLen(_)
RLen(g) == IF g.n = 0 THEN TBytes(g.t) ELSE FoldLeft(LAMBDA a, r : a + r.n * RLen(r.u), 0, g.c)
RECURSIVE RText(_)
RText(g) == IF g.n = 0 THEN g.t ELSE TNorm(FoldLeft(LAMBDA a, r : a \o TTimes(RText(r.u), r.n), <<>>, g.c))
RECURSIVE RCanon(_)
RCanon(g) == IF g.n = 0 THEN [g EXCEPT !.t = TNorm(@)]
             ELSE [g EXCEPT !.c = NormRuns([i \in 1..Len(@) |-> Run(RCanon(@[i].u), @[i].n)])]

\* the green tree it stands for
TExpand(t) == FoldLeft(LAMBDA a, r : a \o [i \in 1..r[2] |-> r[1]], <<>>, t)
RECURSIVE RExpand(_)
RExpand(g) == IF g.n = 0 THEN GTok(g.k, TExpand(g.t))
              ELSE GNode(g.k, FoldLeft(LAMBDA a, r : LET x == RExpand(r.u) IN a \o [i \in 1..r.n |-> x], <<>>, g.c))

OffIn(g, i) == \* where child i of g starts, relative to g
    FoldLeft(LAMBDA a, r : [i |-> a.i - MinOf(a.i, r.n), o |-> a.o + MinOf(a.i, r.n) * RLen(r.u)],
             [i |-> i, o |-> 0], g.c).o

RECURSIVE RAt(_, _)
RAt(g, p) == IF p = <<>> THEN g ELSE RAt(UnitAt(g.c, p[1]), Tail(p))
RECURSIVE RStart(_, _)
RStart(g, p) == IF p = <<>> THEN 0 ELSE OffIn(g, p[1]) + RStart(UnitAt(g.c, p[1]), Tail(p))
REnd(g, p) == RStart(g, p) + RLen(RAt(g, p))
RECURSIVE RHas(_, _)
RHas(g, p) == p = <<>> \/ (p[1] >= 0 /\ p[1] < Count(g.c) /\ RHas(UnitAt(g.c, p[1]), Tail(p)))
\* g with the element at p replaced
RECURSIVE RPut(_, _, _)
RPut(g, p, x) == IF p = <<>> THEN x
                 ELSE [g EXCEPT !.c = SpliceRuns(@, p[1], p[1] + 1, <<Run(RPut(UnitAt(@, p[1]), Tail(p), x), 1)>>)]
\* g with the children lo..hi-1 of the node at p replaced by runs
RSplice(g, p, lo, hi, ins) == RPut(g, p, [RAt(g, p) EXCEPT !.c = SpliceRuns(@, lo, hi, ins)])

-----------------------------------------------------------------------------
(* Navigation: from and to paths; <<>> or <<path>> *)
IsN(u) == u.n = 1
AnyU(u) == TRUE
RECURSIVE HasTok(_)
HasTok(u) == u.n = 0 \/ \E i \in DOMAIN u.c : u.c[i].n > 0 /\ HasTok(u.c[i].u)
Below(p, i) == IF i < 0 THEN None ELSE Some(Append(p, i))
RECURSIVE RFirstTok(_, _)
RFirstTok(u, p) == IF u.n = 0 THEN Some(p)
                   ELSE LET i == FirstIdx(u.c, 0, HasTok)
                        IN IF i < 0 THEN None ELSE RFirstTok(UnitAt(u.c, i), Append(p, i))
RECURSIVE RLastTok(_, _)
RLastTok(u, p) == IF u.n = 0 THEN Some(p)
                  ELSE LET i == LastIdx(u.c, Count(u.c), HasTok)
                       IN IF i < 0 THEN None ELSE RLastTok(UnitAt(u.c, i), Append(p, i))
RECURSIVE RNextTok(_, _)
RNextTok(g, p) ==
    IF p = <<>> THEN None
    ELSE LET c == RAt(g, Front(p)).c
             i == FirstIdx(c, Last(p) + 1, HasTok)
         IN IF i < 0 THEN RNextTok(g, Front(p)) ELSE RFirstTok(UnitAt(c, i), Append(Front(p), i))
RECURSIVE RPrevTok(_, _)
RPrevTok(g, p) ==
    IF p = <<>> THEN None
    ELSE LET c == RAt(g, Front(p)).c
             i == LastIdx(c, Last(p), HasTok)
         IN IF i < 0 THEN RPrevTok(g, Front(p)) ELSE RLastTok(UnitAt(c, i), Append(Front(p), i))

RNext(g, p, P(_)) == IF p = <<>> THEN None ELSE Below(Front(p), FirstIdx(RAt(g, Front(p)).c, Last(p) + 1, P))
RPrev(g, p, P(_)) == IF p = <<>> THEN None ELSE Below(Front(p), LastIdx(RAt(g, Front(p)).c, Last(p), P))
RNav(g, p, op, K) ==
    LET u == RAt(g, p) IN
    CASE op = "parent"       -> IF p = <<>> THEN None ELSE Some(Front(p))
      [] op = "clone"        -> Some(p)
      [] op = "first_child"  -> Below(p, FirstIdx(u.c, 0, IsN))
      [] op = "last_child"   -> Below(p, LastIdx(u.c, Count(u.c), IsN))
      [] op = "first_child_or_token" -> Below(p, FirstIdx(u.c, 0, AnyU))
      [] op = "last_child_or_token"  -> Below(p, LastIdx(u.c, Count(u.c), AnyU))
      [] op \in {"next_sibling", "to_next_sibling"} -> RNext(g, p, IsN)
      [] op = "prev_sibling" -> RPrev(g, p, IsN)
      [] op \in {"next_sibling_or_token", "to_next_sibling_or_token"} -> RNext(g, p, AnyU)
      [] op = "prev_sibling_or_token" -> RPrev(g, p, AnyU)
      [] op = "first_token"  -> RFirstTok(u, p)
      [] op = "last_token"   -> RLastTok(u, p)
      [] op = "next_token"   -> RNextTok(g, p)
      [] op = "prev_token"   -> RPrevTok(g, p)
      [] op = "first_child_by_kind" -> Below(p, FirstIdx(u.c, 0, LAMBDA x : x.n = 1 /\ x.k \in K))
      [] op = "first_child_or_token_by_kind" -> Below(p, FirstIdx(u.c, 0, LAMBDA x : x.k \in K))
      [] op = "next_sibling_by_kind" -> RNext(g, p, LAMBDA x : x.n = 1 /\ x.k \in K)
      [] op = "next_sibling_or_token_by_kind" -> RNext(g, p, LAMBDA x : x.k \in K)

-----------------------------------------------------------------------------
(* Sequences of siblings as segments: neighbouring elements of one sort    *)
(*   [i |-> index of the first, m |-> how many, n, k, w, s |-> its start]  *)
RSegs(g, p, lo, hi, P(_)) == \* the children lo..hi-1 of the node at p that satisfy P
    FoldLeft(LAMBDA a, r :
        LET w == RLen(r.u)
            b == MaxOf(a.i, lo)
            m == MinOf(a.i + r.n, hi) - b
            s == a.s + (b - a.i) * w
            l == Len(a.o)
            o == IF m <= 0 \/ ~P(r.u) THEN a.o
                 ELSE IF l > 0 /\ LET q == a.o[l] IN q.n = r.u.n /\ q.k = r.u.k /\ q.w = w /\ q.i + q.m = b /\ q.s + q.m * q.w = s
                 THEN [a.o EXCEPT ![l].m = @ + m]
                 ELSE Append(a.o, [i |-> b, m |-> m, n |-> r.u.n, k |-> r.u.k, w |-> w, s |-> s])
        IN [i |-> a.i + r.n, s |-> a.s + r.n * w, o |-> o],
        [i |-> 0, s |-> RStart(g, p), o |-> <<>>], RAt(g, p).c).o
RSeqBy(g, p, op, K) ==
    LET n == Count(RAt(g, p).c)
        q == IF p = <<>> THEN p ELSE Front(p)
        i == IF p = <<>> THEN 0 ELSE Last(p)
        m == Count(RAt(g, q).c)
    IN CASE op = "children"             -> RSegs(g, p, 0, n, IsN)
         [] op = "children_with_tokens" -> RSegs(g, p, 0, n, AnyU)
         [] op = "children_by_kind"     -> RSegs(g, p, 0, n, LAMBDA x : x.n = 1 /\ x.k \in K)
         [] op = "children_with_tokens_by_kind" -> RSegs(g, p, 0, n, LAMBDA x : x.k \in K)
         [] p = <<>> -> \* a root is a list of siblings by itself
              IF g.n = 0 /\ op \in {"siblings_next", "siblings_prev"} THEN <<>>
              ELSE <<[i |-> 0, m |-> 1, n |-> g.n, k |-> g.k, w |-> RLen(g), s |-> 0]>>
         [] op = "siblings_next"        -> RSegs(g, q, i, m, IsN)
         [] op = "siblings_prev"        -> Reverse(RSegs(g, q, 0, i + 1, IsN))
         [] op = "siblings_with_tokens_next" -> RSegs(g, q, i, m, AnyU)
         [] op = "siblings_with_tokens_prev" -> Reverse(RSegs(g, q, 0, i + 1, AnyU))

(* The skeleton of a subtree: what a walk shows of it.  g: bytes between   *)
(* the element and the one before it (or the start of its parent), which   *)
(* is not 0 only when tokens are left out.  Skip: kinds of nodes whose     *)
(* subtree is not visited.                                                 *)
RECURSIVE Skel(_, _, _)
Skel(u, tok, Skip) ==
    LET f == FoldLeft(LAMBDA a, r :
                IF tok = 0 /\ r.u.n = 0 THEN [a EXCEPT !.g = @ + r.n * RLen(r.u)]
                ELSE LET x == Skel(r.u, tok, Skip)
                     IN [g |-> 0, o |-> a.o \o <<Run([x EXCEPT !.g = a.g], 1), Run(x, r.n - 1)>>],
                [g |-> 0, o |-> <<>>], u.c)
    IN [n |-> u.n, k |-> u.k, w |-> RLen(u), g |-> 0, t |-> u.t,
        c |-> IF u.k \in Skip THEN <<>> ELSE NormRuns(f.o)]

-----------------------------------------------------------------------------
(* Positions, relative to the element asked *)

\* children of nonzero width that touch offset o: indices, at most two
Touching(u, o) ==
    FoldLeft(LAMBDA a, r :
        LET w == RLen(r.u)
            j == (o - a.b) \div w
            J == IF (o - a.b) % w = 0 THEN <<j - 1, j>> ELSE <<j>>
        IN [i |-> a.i + r.n, b |-> a.b + r.n * w,
            o |-> IF w = 0 \/ o < a.b \/ o > a.b + r.n * w THEN a.o
                  ELSE a.o \o MapSeq(SelectSeq(J, LAMBDA x : x >= 0 /\ x < r.n), LAMBDA x : x + a.i)],
        [i |-> 0, b |-> 0, o |-> <<>>], u.c).o
RECURSIVE RTokAt(_, _)
RTokAt(u, o) == \* paths below u
    IF u.n = 0 THEN (IF RLen(u) = 0 THEN <<>> ELSE << <<>> >>)
    ELSE FoldLeft(LAMBDA a, i : a \o MapSeq(RTokAt(UnitAt(u.c, i), o - OffIn(u, i)), LAMBDA q : <<i>> \o q),
                  <<>>, Touching(u, o))

\* is there a child that contains s..e?
KidCovers(u, s, e) ==
    FoldLeft(LAMBDA a, r :
        LET w == RLen(r.u)
        IN [b |-> a.b + r.n * w,
            f |-> a.f \/ (IF w = 0 THEN r.n > 0 /\ s = e /\ s = a.b
                          ELSE /\ s >= a.b /\ e <= a.b + r.n * w
                               /\ IF s = e THEN TRUE ELSE (s - a.b) \div w = (e - 1 - a.b) \div w)],
        [b |-> 0, f |-> FALSE], u.c).f
\* may the covering query on the root of g, asked below p, answer y?
CoverOk(g, p, y, s, e) ==
    /\ Len(y) >= Len(p) /\ SubSeq(y, 1, Len(p)) = p /\ RHas(g, y)
    /\ RStart(g, y) <= s /\ e <= REnd(g, y)
    /\ ~KidCovers(RAt(g, y), s - RStart(g, y), e - RStart(g, y))
\* may the child query at p answer y?
ChildOk(g, p, y, s, e) ==
    IF y = None THEN ~KidCovers(RAt(g, p), s - RStart(g, p), e - RStart(g, p))
    ELSE Len(y[1]) = Len(p) + 1 /\ Front(y[1]) = p /\ RHas(g, y[1]) /\ RStart(g, y[1]) <= s /\ e <= REnd(g, y[1])

RProj(g, p) == LET u == RAt(g, p) IN [n |-> u.n, k |-> u.k, s |-> RStart(g, p), e |-> REnd(g, p), p |-> p]

-----------------------------------------------------------------------------
(* Pointers: how many nodes of a kind have a given range *)
RECURSIVE PtrCount(_, _, _, _)
PtrCount(u, k, s, e) == \* s, e relative to u; counted up to 2 along one branch
    (IF u.n = 1 /\ u.k = k /\ s = 0 /\ e = RLen(u) THEN 1 ELSE 0) +
    FoldLeft(LAMBDA a, r :
        LET w == RLen(r.u)
            j == (s - a.b) \div w
        IN [b |-> a.b + r.n * w,
            f |-> a.f + (IF r.n = 0 THEN 0
                         ELSE IF w = 0 THEN IF s = e /\ s = a.b THEN r.n * PtrCount(r.u, k, 0, 0) ELSE 0
                         ELSE IF s # e THEN IF s >= a.b /\ j < r.n /\ e - a.b - j * w <= w
                                            THEN PtrCount(r.u, k, s - a.b - j * w, e - a.b - j * w) ELSE 0
                         ELSE IF s < a.b \/ s > a.b + r.n * w THEN 0
                         ELSE (IF j < r.n THEN PtrCount(r.u, k, s - a.b - j * w, s - a.b - j * w) ELSE 0) +
                              (IF j > 0 /\ s - a.b = j * w THEN PtrCount(r.u, k, w, w) ELSE 0))],
        [b |-> 0, f |-> 0], u.c).f

-----------------------------------------------------------------------------
(* Edits of mutable trees.  A forest F maps tree numbers to trees; handles *)
(* are places <<tree, path>>; an edit maps both.                           *)
IsPrefix2(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* the element at x leaves its tree and becomes tree number id
DetachPlace(x, id, h) ==
    IF h[1] # x[1] \/ Len(h[2]) < Len(x[2]) THEN h
    ELSE LET d == Len(x[2])
             up == Front(x[2])
         IN IF IsPrefix2(x[2], h[2]) THEN <<id, SubSeq(h[2], d + 1, Len(h[2]))>>
            ELSE IF IsPrefix2(up, h[2]) /\ h[2][d] > x[2][d] THEN <<h[1], [h[2] EXCEPT ![d] = @ - 1]>>
            ELSE h
\* tree number id becomes child i of the node at x
AttachPlace(x, i, id, h) ==
    LET d == Len(x[2]) + 1
    IN IF h[1] = id THEN <<x[1], x[2] \o <<i>> \o h[2]>>
       ELSE IF h[1] = x[1] /\ Len(h[2]) >= d /\ IsPrefix2(x[2], h[2]) /\ h[2][d] >= i THEN <<h[1], [h[2] EXCEPT ![d] = @ + 1]>>
       ELSE h
\* a state of an edit: [f |-> forest (sequence of trees), h |-> handles]
EDetach(z, x) ==
    IF x[2] = <<>> THEN z
    ELSE LET g == z.f[x[1]]
             id == Len(z.f) + 1
             up == Front(x[2])
         IN [f |-> Append([z.f EXCEPT ![x[1]] = RSplice(g, up, Last(x[2]), Last(x[2]) + 1, <<>>)], RAt(g, x[2])),
             h |-> [a \in DOMAIN z.h |-> DetachPlace(x, id, z.h[a])]]
EAttach(z, x, i, id) ==
    [f |-> [z.f EXCEPT ![x[1]] = RSplice(@, x[2], i, i, <<Run(z.f[id], 1)>>)],
     h |-> [a \in DOMAIN z.h |-> AttachPlace(x, i, id, z.h[a])]]
\* Deleting the children lo..hi-1 of x: the ones with handles become trees,
\* the others cannot be reached any more
EDelete(z, x, lo, hi) ==
    LET d == Len(x[2]) + 1
        held == { z.h[a][2][d] : a \in { a \in DOMAIN z.h : /\ z.h[a][1] = x[1] /\ Len(z.h[a][2]) >= d
                                                            /\ IsPrefix2(x[2], z.h[a][2])
                                                            /\ z.h[a][2][d] >= lo /\ z.h[a][2][d] < hi } }
        order == SetToSortSeq(held, LAMBDA p, q : p > q)
        z1 == FoldLeft(LAMBDA a, i : EDetach(a, <<x[1], Append(x[2], i)>>), z, order)
        m == MinOf(hi, Count(RAt(z.f[x[1]], x[2]).c)) - lo - Len(order)
    IN IF m <= 0 THEN z1
       ELSE [f |-> [z1.f EXCEPT ![x[1]] = RSplice(@, x[2], lo, lo + m, <<>>)],
             h |-> [a \in DOMAIN z1.h |->
                       LET p == z1.h[a] IN
                       IF p[1] = x[1] /\ Len(p[2]) >= d /\ IsPrefix2(x[2], p[2]) /\ p[2][d] >= lo
                       THEN <<p[1], [p[2] EXCEPT ![d] = @ - m]>> ELSE p]]
\* "for c in children { c.detach() }", of the children that satisfy P.  The
\* ones without a handle cannot be reached any more.
ELoop(z, x, P(_)) ==
    LET d == Len(x[2]) + 1
        under(p) == p[1] = x[1] /\ Len(p[2]) >= d /\ IsPrefix2(x[2], p[2])
        held == { z.h[a][2][d] : a \in { a \in DOMAIN z.h : under(z.h[a]) /\ P(UnitAt(RAt(z.f[x[1]], x[2]).c, z.h[a][2][d])) } }
        z1 == FoldLeft(LAMBDA a, i : EDetach(a, <<x[1], Append(x[2], i)>>), z, SetToSortSeq(held, LAMBDA p, q : p > q))
        c == RAt(z1.f[x[1]], x[2]).c
        left(rs) == SelectSeq(rs, LAMBDA r : ~P(r.u))
    IN [f |-> [z1.f EXCEPT ![x[1]] = RPut(@, x[2], [RAt(@, x[2]) EXCEPT !.c = NormRuns(left(c))])],
        h |-> [a \in DOMAIN z1.h |->
                  LET p == z1.h[a] IN
                  IF under(p) THEN <<p[1], [p[2] EXCEPT ![d] = Count(left(TakeRuns(c, @)))]>> ELSE p]]

\* splicing: hx: the handle of the node, ins: handles of what is inserted
ESplice(z, hx, lo, hi, ins) ==
    LET step(a, y) ==
            IF ~a.ok THEN a
            ELSE LET z1 == EDetach(a.z, a.z.h[y])
                     x == z1.h[hx]
                 IN IF a.i > Count(RAt(z1.f[x[1]], x[2]).c) \/ x[1] = z1.h[y][1]
                    THEN [z |-> z1, i |-> a.i, ok |-> FALSE]
                    ELSE [z |-> EAttach(z1, x, a.i, z1.h[y][1]), i |-> a.i + 1, ok |-> TRUE]
    IN FoldLeft(step, [z |-> EDelete(z, z.h[hx], lo, hi), i |-> lo, ok |-> TRUE], ins)
=============================================================================
