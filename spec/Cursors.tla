------------------------------ MODULE Cursors ------------------------------
(***************************************************************************)
(* The cursor layer as it is built: counted green objects, counted cursor  *)
(* objects that remember their parent, their index and (in immutable       *)
(* trees) their offset, and in mutable trees a sorted ring of the live     *)
(* cursors below each node.  An edit rebuilds the green nodes up to the    *)
(* root and lets the cursors on the way point to the new ones.             *)
(*                                                                         *)
(* A heap is a value                                                       *)
(*   [g |-> green objects [n, k, t, c |-> children, w |-> bytes, rc],      *)
(*    n |-> cursors [rc, par, idx, g, m, off, first, next, prev],          *)
(*    e |-> everything that went wrong so far].                            *)
(* Objects are addressed by position; released ones are Dead and their     *)
(* places are used again.  Operators return [h |-> heap, r |-> address].   *)
(*                                                                         *)
(* WEAK names a mistake that the laws of MCCursors have to notice.         *)
(***************************************************************************)
EXTENDS Forest

CONSTANT WEAK

Dead == [rc |-> 0]
NoHeap == [g |-> <<>>, n |-> <<>>, e |-> {}]

Err(h, x) == [h EXCEPT !.e = @ \cup {x}]
Free1(s) == IF \E i \in DOMAIN s : s[i] = Dead
            THEN CHOOSE i \in DOMAIN s : s[i] = Dead /\ \A j \in 1..i - 1 : s[j] # Dead
            ELSE Len(s) + 1
Put(s, i, x) == IF i > Len(s) THEN Append(s, x) ELSE [s EXCEPT ![i] = x]

-----------------------------------------------------------------------------
(* Green objects *)

GInc(h, x) == IF h.g[x] = Dead THEN Err(h, "green object used after its release")
              ELSE [h EXCEPT !.g[x].rc = @ + 1]

RECURSIVE GDec(_, _)
GDec(h, x) ==
    IF h.g[x] = Dead THEN Err(h, "green object released twice")
    ELSE IF h.g[x].rc > 1 THEN [h EXCEPT !.g[x].rc = @ - 1]
    ELSE FoldLeft(LAMBDA a, y : GDec(a, y), [h EXCEPT !.g[x] = Dead], h.g[x].c)

\* a new node that takes over the ownership of its children
GMake(h, n, k, t, c) ==
    LET i == Free1(h.g)
        w == IF n = 0 THEN BLen(t) ELSE Sum([j \in 1..Len(c) |-> h.g[c[j]].w])
    IN [h |-> [h EXCEPT !.g = Put(@, i, [n |-> n, k |-> k, t |-> t, c |-> c, w |-> w, rc |-> 1])], r |-> i]

\* the children of node x with lo..hi-1 replaced; takes over the ownership of ins
GSpliced(h, x, lo, hi, ins) ==
    LET c == h.g[x].c
        kept == SubSeq(c, 1, lo) \o SubSeq(c, hi + 1, Len(c))
        h1 == FoldLeft(LAMBDA a, y : GInc(a, y), h, kept)
    IN GMake(h1, 1, h.g[x].k, <<>>, SubSeq(c, 1, lo) \o ins \o SubSeq(c, hi + 1, Len(c)))

RECURSIVE GVal(_, _)
GVal(h, x) == [n |-> h.g[x].n, k |-> h.g[x].k, t |-> h.g[x].t,
               c |-> [i \in 1..Len(h.g[x].c) |-> GVal(h, h.g[x].c[i])]]

\* a tree with equal elements shared, as a cache would make it
RECURSIVE GPlant(_, _)
GPlant(h, v) ==
    LET same == { i \in DOMAIN h.g : h.g[i] # Dead /\ h.g[i].n = v.n /\ GVal(h, i) = v }
    IN IF same # {} THEN LET i == CHOOSE j \in same : TRUE IN [h |-> GInc(h, i), r |-> i]
       ELSE LET f == FoldLeft(LAMBDA a, y : LET q == GPlant(a.h, y) IN [h |-> q.h, c |-> Append(a.c, q.r)],
                              [h |-> h, c |-> <<>>], v.c)
            IN GMake(f.h, v.n, v.k, v.t, f.c)

RelOff(h, x, i) == Sum([j \in 1..i |-> h.g[h.g[x].c[j]].w])

-----------------------------------------------------------------------------
(* The ring of live cursors below a node, sorted by index *)

SetNext(h, x, y) == [h EXCEPT !.n[x].next = y]
SetPrev(h, x, y) == [h EXCEPT !.n[x].prev = y]

\* where a cursor of index idx belongs: [c |-> case, at |-> cursor]
RECURSIVE FindBack(_, _, _)
FindBack(h, cur, idx) ==
    IF h.n[cur].idx < idx THEN [c |-> "after", at |-> cur]
    ELSE IF h.n[cur].idx = idx THEN [c |-> "there", at |-> cur]
    ELSE FindBack(h, h.n[cur].prev, idx)
FindPlace(h, p, idx) ==
    LET head == h.n[p].first
    IN IF head = 0 THEN [c |-> "empty", at |-> 0]
       ELSE IF idx < h.n[head].idx THEN [c |-> "head", at |-> head]
       ELSE FindBack(h, h.n[head].prev, idx)

\* links cursor x below p at the place found
Link(h, p, x, f) ==
    LET h0 == SetPrev(SetNext(h, x, x), x, x)
    IN CASE f.c = "empty" -> [h0 EXCEPT !.n[p].first = x]
         [] f.c = "head" ->
              LET last == h0.n[f.at].prev
                  h1 == SetPrev(SetNext(SetPrev(SetNext(h0, last, x), f.at, x), x, f.at), x, last)
              IN IF WEAK = "head" THEN h1 ELSE [h1 EXCEPT !.n[p].first = x]
         [] f.c = "after" ->
              LET nx == h0.n[f.at].next
              IN SetNext(SetPrev(SetPrev(SetNext(h0, f.at, x), nx, x), x, f.at), x, nx)
         [] OTHER -> h0

Unlink(h, p, x) ==
    LET pv == h.n[x].prev
        nx == h.n[x].next
        h1 == SetPrev(SetNext(h, x, x), x, x)
        h2 == IF h.n[pv].next # x \/ h.n[nx].prev # x THEN Err(h1, "invalid links") ELSE h1
        h3 == SetPrev(SetNext(h2, pv, nx), nx, pv)
    IN IF h.n[p].first # x THEN h3
       ELSE [h3 EXCEPT !.n[p].first = IF nx = x THEN 0 ELSE nx]

RECURSIVE AdjustFrom(_, _, _, _, _)
AdjustFrom(h, start, cur, from, by) ==
    LET h1 == IF h.n[cur].idx >= from THEN [h EXCEPT !.n[cur].idx = @ + by] ELSE h
        nx == h1.n[cur].next
    IN IF nx = start THEN h1 ELSE AdjustFrom(h1, start, nx, from, by)
Adjust(h, start, from, by) == AdjustFrom(h, start, start, from, by)

-----------------------------------------------------------------------------
(* Cursors *)

Inc(h, x) == IF h.n[x] = Dead THEN Err(h, "cursor used after its release") ELSE [h EXCEPT !.n[x].rc = @ + 1]

\* one owner of cursor x less; x = 0: nothing
RECURSIVE Dec(_, _)
Dec(h, x) ==
    IF x = 0 THEN h
    ELSE IF h.n[x] = Dead THEN Err(h, "cursor released twice")
    ELSE IF h.n[x].rc > 1 THEN [h EXCEPT !.n[x].rc = @ - 1]
    ELSE LET p == h.n[x].par
             h1 == IF h.n[x].first # 0 THEN Err(h, "cursor released before its children") ELSE h
             h2 == IF p # 0 /\ h.n[x].m = 1 /\ WEAK # "unlink" THEN Unlink(h1, p, x) ELSE h1
             h3 == [h2 EXCEPT !.n[x] = Dead]
         IN IF p # 0 THEN Dec(h3, p)
            ELSE IF WEAK = "keep-green" /\ h.n[x].m = 1 THEN h3
            ELSE GDec(h3, h.n[x].g)

\* a cursor at child idx of p; takes over one ownership of p
NewCursor(h, p, idx, g, off, m) ==
    LET f == IF m = 1 /\ p # 0 THEN FindPlace(h, p, idx) ELSE [c |-> "none", at |-> 0]
    IN IF f.c = "there"
       THEN LET h1 == IF h.n[f.at].g # g THEN Err(h, "cursor of another green object") ELSE h
            IN [h |-> Inc(IF WEAK = "parent" THEN h1 ELSE Dec(h1, p), f.at), r |-> f.at]
       ELSE LET x == Free1(h.n)
                h1 == [h EXCEPT !.n = Put(@, x, [rc |-> 1, par |-> p, idx |-> idx, g |-> g, m |-> m, off |-> off,
                                                 first |-> 0, next |-> x, prev |-> x])]
            IN [h |-> IF m = 1 /\ p # 0 THEN Link(h1, p, x, f) ELSE h1, r |-> x]

NewRootCursor(h, g, m) == NewCursor(h, 0, 0, g, 0, m)

RECURSIVE OffMut(_, _)
OffMut(h, x) ==
    LET p == h.n[x].par
    IN IF p = 0 THEN 0 ELSE RelOff(h, h.n[p].g, h.n[x].idx) + OffMut(h, p)
Off(h, x) == IF h.n[x].m = 1 /\ WEAK # "offset" THEN OffMut(h, x) ELSE h.n[x].off

\* the child at idx of node x
Child(h, x, idx) ==
    LET g == h.n[x].g
    IN NewCursor(Inc(h, x), x, idx, h.g[g].c[idx + 1], Off(h, x) + RelOff(h, g, idx), h.n[x].m)
\* the sibling at idx of x
Sibling(h, x, idx) == Child(h, h.n[x].par, idx)
Parent1(h, x) == [h |-> Inc(h, h.n[x].par), r |-> h.n[x].par]

\* the handle on x moves to the next sibling, in place when x is its own
NextInPlace(h, x) ==
    LET p == h.n[x].par
        i == h.n[x].idx + 1
        own == h.n[x].rc = 1 /\ h.n[x].m = 0
    IN IF p = 0 \/ i >= Len(h.g[h.n[p].g].c) THEN [h |-> Dec(h, x), r |-> 0]
       ELSE IF own \/ (WEAK = "take" /\ h.n[x].m = 0)
       THEN [h |-> [h EXCEPT !.n[x].idx = i, !.n[x].g = h.g[h.n[p].g].c[i + 1],
                             !.n[x].off = IF WEAK = "take-off" THEN @ ELSE Off(h, p) + RelOff(h, h.n[p].g, i)], r |-> x]
       ELSE LET s == Sibling(h, x, i) IN [h |-> Dec(s.h, x), r |-> s.r]

-----------------------------------------------------------------------------
(* Child iterators: a value [on, par, nx, init, t]; t = 1: with tokens.    *)
(* In a mutable tree the iterator is a step ahead, in an immutable one it  *)
(* keeps what it gave last and steps in place when it is the only owner.   *)

NoIt == [on |-> 0, par |-> 0, nx |-> 0, init |-> 0, t |-> 0]
\* the first place from i on that the iterator stops at
RECURSIVE Place(_, _, _, _)
Place(h, p, i, t) ==
    LET c == h.g[h.n[p].g].c
    IN IF i >= Len(c) THEN 0 - 1 ELSE IF t = 1 \/ h.g[c[i + 1]].n = 1 THEN i ELSE Place(h, p, i + 1, t)
\* [h |-> heap, r |-> the child at the first such place, or 0]
ChildFrom(h, p, i, t) == IF p = 0 THEN [h |-> h, r |-> 0]
                         ELSE LET j == Place(h, p, i, t) IN IF j < 0 THEN [h |-> h, r |-> 0] ELSE Child(h, p, j)
\* as NextInPlace, for a handle x that the iterator owns
StepInPlace(h, x, t) ==
    LET p == h.n[x].par
        j == IF p = 0 THEN 0 - 1 ELSE Place(h, p, h.n[x].idx + 1, t)
        own == h.n[x].rc = 1 \/ WEAK = "it-share"
    IN IF j < 0 THEN [h |-> Dec(h, x), r |-> 0]
       ELSE IF own
       THEN [h |-> [h EXCEPT !.n[x].idx = j, !.n[x].g = h.g[h.n[p].g].c[j + 1],
                             !.n[x].off = Off(h, p) + RelOff(h, h.n[p].g, j)], r |-> x]
       ELSE LET s == Child(h, p, j) IN [h |-> Dec(s.h, x), r |-> s.r]

HIterate(h, x, t) == [h |-> Inc(h, x), it |-> [on |-> 1, par |-> x, nx |-> 0, init |-> 0, t |-> t]]
\* [h |-> heap, it |-> iterator, r |-> what it gives (owned by the caller), 0 at the end]
HItNext(h, it) ==
    IF h.n[it.par].m = 1
    THEN LET a == IF it.init = 1 THEN [h |-> h, r |-> it.nx] ELSE ChildFrom(h, it.par, 0, it.t)
             b == IF a.r = 0 THEN [h |-> a.h, r |-> 0]
                  ELSE ChildFrom(a.h, a.h.n[a.r].par, a.h.n[a.r].idx + 1, it.t)
         IN IF WEAK = "it-late"
            \* steps only when the next one is asked for
            THEN LET c == IF it.init = 0 THEN a
                          ELSE IF it.nx = 0 THEN [h |-> h, r |-> 0]
                          ELSE LET s == ChildFrom(h, h.n[it.nx].par, h.n[it.nx].idx + 1, it.t)
                               IN [h |-> Dec(s.h, it.nx), r |-> s.r]
                 IN [h |-> IF c.r = 0 THEN c.h ELSE Inc(c.h, c.r), it |-> [it EXCEPT !.init = 1, !.nx = c.r], r |-> c.r]
            ELSE [h |-> b.h, it |-> [it EXCEPT !.init = 1, !.nx = b.r], r |-> a.r]
    ELSE LET a == IF it.init = 0 THEN ChildFrom(h, it.par, 0, it.t)
                  ELSE IF it.nx = 0 THEN [h |-> h, r |-> 0]
                  ELSE StepInPlace(h, it.nx, it.t)
         IN [h |-> IF a.r = 0 \/ WEAK = "it-give" THEN a.h ELSE Inc(a.h, a.r),
             it |-> [it EXCEPT !.init = 1, !.nx = a.r], r |-> a.r]
HItDrop(h, it) == IF WEAK = "it-leak" THEN Dec(h, it.par) ELSE Dec(Dec(h, it.nx), it.par)

-----------------------------------------------------------------------------
(* Edits *)

\* node x now stands for green node g (owned), and so on up to the root
RECURSIVE Respine(_, _, _)
Respine(h, x, g) ==
    LET old == h.n[x].g
        p == h.n[x].par
        h1 == [h EXCEPT !.n[x].g = g]
    IN IF p = 0 THEN (IF WEAK = "old-root" THEN h1 ELSE GDec(h1, old))
       ELSE LET s == GSpliced(h1, h1.n[p].g, h.n[x].idx, h.n[x].idx + 1, <<g>>)
            IN Respine(s.h, p, s.r)

HDetach(h, x) ==
    LET p == h.n[x].par
        i == h.n[x].idx
        h1 == [h EXCEPT !.n[x].par = 0]
        h2 == IF WEAK = "no-adjust" THEN h1
              ELSE Adjust(h1, x, IF WEAK = "adjust-self" THEN i ELSE i + 1, -1)
        h3 == IF WEAK = "detach-unlink" THEN h2 ELSE Unlink(h2, p, x)
        h4 == IF WEAK = "detach-own" THEN h3 ELSE GInc(h3, h3.n[x].g)
        s == GSpliced(h4, h4.n[p].g, h4.n[x].idx, h4.n[x].idx + 1, <<>>)
        h5 == Respine(s.h, p, s.r)
    IN IF p = 0 THEN h ELSE IF WEAK = "detach-parent" THEN h5 ELSE Dec(h5, p)

\* Refused before anything changes
CanAttach(h, p, i, x) ==
    LET RECURSIVE Up(_)
        Up(y) == IF y = 0 THEN {} ELSE {y} \cup Up(h.n[y].par)
    IN i <= Len(h.g[h.n[p].g].c) /\ x \notin Up(p) /\ h.n[x].m = 1
HAttach(h, p, i, x) ==
    LET h1 == Inc([h EXCEPT !.n[x].idx = i, !.n[x].par = p], p)
        h2 == IF h1.n[p].first = 0 \/ WEAK = "no-shift" THEN h1
              ELSE Adjust(h1, h1.n[p].first, IF WEAK = "shift" THEN i + 1 ELSE i, 1)
        f == FindPlace(h2, p, i)
        h3 == IF f.c = "there" THEN Err(h2, "two cursors of one index") ELSE Link(h2, p, x, f)
        h4 == IF WEAK = "steal" THEN GInc(h3, h3.n[x].g) ELSE h3
        s == GSpliced(h4, h4.n[p].g, i, i, <<h4.n[x].g>>)
    IN Respine(s.h, p, s.r)

\* as splice does it: the iterator steps past an element before it is detached
RECURSIVE DeleteLoop(_, _, _, _, _)
DeleteLoop(h, x, j, lo, hi) ==
    IF x = 0 THEN h
    ELSE LET i == h.n[x].idx + 1
             last == i >= Len(h.g[h.n[h.n[x].par].g].c)
             s == IF last THEN [h |-> h, r |-> 0] ELSE Sibling(h, x, i)
             h1 == IF lo <= j /\ j < hi THEN HDetach(s.h, x) ELSE s.h
         IN DeleteLoop(Dec(h1, x), s.r, j + 1, lo, hi)
HDelete(h, x, lo, hi) ==
    IF h.g[h.n[x].g].c = <<>> THEN h
    ELSE LET f == Child(h, x, 0) IN DeleteLoop(f.h, f.r, 0, lo, hi)
HInsertStep(p, a, x) ==
    IF ~a.ok THEN a
    ELSE IF a.h.n[x].m = 0 THEN [a EXCEPT !.ok = FALSE]
    ELSE LET h1 == HDetach(a.h, x)
         IN IF ~CanAttach(h1, p, a.i, x) THEN [h |-> h1, i |-> a.i, ok |-> FALSE]
            ELSE [h |-> HAttach(h1, p, a.i, x), i |-> a.i + 1, ok |-> TRUE]
HSplice(h, x, lo, hi, ins) ==
    FoldLeft(LAMBDA a, y : HInsertStep(x, a, y), [h |-> HDelete(h, x, lo, hi), i |-> lo, ok |-> TRUE], ins)

-----------------------------------------------------------------------------
(* Copies *)
RECURSIVE HCloneForUpdate(_, _)
HCloneForUpdate(h, x) ==
    LET p == h.n[x].par
    IN IF p = 0 THEN NewRootCursor(GInc(h, h.n[x].g), h.n[x].g, 1)
       ELSE LET q == HCloneForUpdate(h, p)
            IN NewCursor(q.h, q.r, h.n[x].idx, h.n[x].g, Off(h, x), 1)
HCloneSubtree(h, x) == NewRootCursor(GInc(h, h.n[x].g), h.n[x].g, 0)

-----------------------------------------------------------------------------
(* What a cursor says about itself *)
RECURSIVE HPath(_, _)
HPath(h, x) == IF h.n[x].par = 0 THEN <<>> ELSE Append(HPath(h, h.n[x].par), h.n[x].idx)
Key(h, x) == <<h.n[x].g, Off(h, x)>>

-----------------------------------------------------------------------------
(* What has to hold of a heap whose cursors are owned by the sequence own  *)
(* and whose green objects are owned by the sequence gown                  *)

Occ(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
Cursor(h) == { x \in DOMAIN h.n : h.n[x] # Dead }
GreenObj(h) == { x \in DOMAIN h.g : h.g[x] # Dead }
KidsOf(h, x) == { y \in Cursor(h) : h.n[y].par = x }
RECURSIVE Ring(_, _, _, _)
Ring(h, start, cur, n) == IF n = 0 THEN <<cur>> ELSE <<cur>> \o
    (IF h.n[cur].next = start THEN <<>> ELSE Ring(h, start, h.n[cur].next, n - 1))

SoundCounts(h, own, gown) ==
    /\ \A x \in Cursor(h) : h.n[x].rc = Occ(own, x) + Cardinality(KidsOf(h, x)) /\ h.n[x].rc > 0
    /\ \A x \in Cursor(h) : h.n[x].par # 0 => h.n[x].par \in Cursor(h)
    /\ \A x \in GreenObj(h) :
         h.g[x].rc = Occ(gown, x) + Cardinality({ y \in Cursor(h) : h.n[y].par = 0 /\ h.n[y].g = x })
                     + Sum([y \in 1..Len(h.g) |-> IF h.g[y] = Dead THEN 0 ELSE Occ(h.g[y].c, x)])
    /\ \A x \in Cursor(h) : h.n[x].g \in GreenObj(h)
    /\ \A x \in GreenObj(h) : Range(h.g[x].c) \subseteq GreenObj(h)
\* no two cursors of one element; the ring below a node is exactly its
\* live cursors, in order, linked both ways
SoundRings(h) == \A x \in Cursor(h) : h.n[x].m = 1 =>
    LET ks == KidsOf(h, x)
    IN IF ks = {} THEN h.n[x].first = 0
       ELSE /\ h.n[x].first \in ks
            /\ LET r == Ring(h, h.n[x].first, h.n[x].first, Cardinality(ks))
               IN /\ Len(r) = Cardinality(ks) /\ Range(r) = ks
                  /\ \A i \in 1..Len(r) - 1 : h.n[r[i]].idx < h.n[r[i + 1]].idx /\ h.n[r[i + 1]].prev = r[i]
                  /\ h.n[r[1]].prev = r[Len(r)]
SoundLinks(h) == \A x \in Cursor(h) :
    LET p == h.n[x].par
    IN p # 0 => /\ h.n[p].m = h.n[x].m
                /\ h.n[x].idx < Len(h.g[h.n[p].g].c)
                /\ h.g[h.n[p].g].c[h.n[x].idx + 1] = h.n[x].g
                /\ h.n[x].m = 0 => h.n[x].off = OffMut(h, x)
=============================================================================
