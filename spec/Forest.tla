------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* The abstract state behind cursors: a forest of elements.                *)
(*                                                                         *)
(* A store S is a sequence of elements, addressed by position (the         *)
(* element's identity, which never changes):                               *)
(*   n  1 for a node, 0 for a token        p  parent, 0 for a root         *)
(*   k  kind                               c  children, in order           *)
(*   t  text (tokens)                      m  1 in a mutable tree          *)
(*   w  length in bytes                                                    *)
(* Several trees live in one store; immutable ones never change.           *)
(***************************************************************************)
EXTENDS Green

NoStore == <<>>

IsTok(S, x)  == S[x].n = 0
IsNode(S, x) == S[x].n = 1

-----------------------------------------------------------------------------
(* Making trees *)

\* S with the tree g added below parent p: [s |-> store, r |-> its root]
RECURSIVE PlantBelow(_, _, _, _)
PlantBelow(S, g, p, m) ==
    LET id == Len(S) + 1
        step(a, x) == LET r == PlantBelow(a.s, x, id, m)
                      IN [s |-> r.s, c |-> Append(a.c, r.r)]
        f == FoldLeft(step,
               [s |-> Append(S, [n |-> g.n, k |-> g.k, t |-> g.t, p |-> p,
                                 c |-> <<>>, m |-> m, w |-> GLen(g)]),
                c |-> <<>>], g.c)
    IN [s |-> [f.s EXCEPT ![id].c = f.c], r |-> id]

Plant(S, g, m) == PlantBelow(S, g, 0, m)

\* the green value of an element
RECURSIVE Val(_, _)
Val(S, x) == [n |-> S[x].n, k |-> S[x].k, t |-> S[x].t,
              c |-> [i \in 1..Len(S[x].c) |-> Val(S, S[x].c[i])]]

-----------------------------------------------------------------------------
(* Place *)

\* 0-based position among the parent's children
Index(S, x) == LET c == S[S[x].p].c IN (CHOOSE i \in DOMAIN c : c[i] = x) - 1

RECURSIVE Path(_, _)
Path(S, x) == IF S[x].p = 0 THEN <<>> ELSE Append(Path(S, S[x].p), Index(S, x))

RECURSIVE RootOf(_, _)
RootOf(S, x) == IF S[x].p = 0 THEN x ELSE RootOf(S, S[x].p)

RECURSIVE AtPath(_, _, _)
AtPath(S, x, p) == IF p = <<>> THEN x ELSE AtPath(S, S[x].c[Head(p) + 1], Tail(p))

\* absolute byte offset: everything before x in its tree
RECURSIVE Start(_, _)
Start(S, x) ==
    IF S[x].p = 0 THEN 0
    ELSE LET c == S[S[x].p].c
         IN FoldLeft(LAMBDA a, y : IF a.f THEN a
                                   ELSE IF y = x THEN [a EXCEPT !.f = TRUE]
                                   ELSE [a EXCEPT !.o = @ + S[y].w],
                     [f |-> FALSE, o |-> Start(S, S[x].p)], c).o
End(S, x) == Start(S, x) + S[x].w

\* x, its parent, ..., the root
RECURSIVE Ancestors(_, _)
Ancestors(S, x) == IF x = 0 THEN <<>> ELSE <<x>> \o Ancestors(S, S[x].p)

IsBelow(S, x, y) == \* x is y or below y
    LET a == Ancestors(S, x) IN \E i \in DOMAIN a : a[i] = y

\* subtree of x in document order
RECURSIVE Pre(_, _)
Pre(S, x) == FoldLeft(LAMBDA a, y : a \o Pre(S, y), <<x>>, S[x].c)

NodesOf(S, xs) == SelectSeq(xs, LAMBDA y : S[y].n = 1)
ToksOf(S, xs)  == SelectSeq(xs, LAMBDA y : S[y].n = 0)
OfKinds(S, xs, K) == SelectSeq(xs, LAMBDA y : S[y].k \in K)
Toks(S, x) == ToksOf(S, Pre(S, x))

First(s) == IF s = <<>> THEN None ELSE Some(s[1])
Final(s)  == IF s = <<>> THEN None ELSE Some(s[Len(s)])

TextOf(S, x) == FoldLeft(LAMBDA a, y : a \o S[y].t, <<>>, Toks(S, x))

-----------------------------------------------------------------------------
(* Navigation: every step is the first or last element of a sequence given *)
(* by the structure of the tree.  Results are <<>> or <<element>>.         *)

After(S, x) == \* following siblings, nearest first
    IF S[x].p = 0 THEN <<>> ELSE LET c == S[S[x].p].c IN SubSeq(c, Index(S, x) + 2, Len(c))
Before(S, x) == \* preceding siblings, nearest first
    IF S[x].p = 0 THEN <<>> ELSE Reverse(SubSeq(S[S[x].p].c, 1, Index(S, x)))

Parent(S, x)      == IF S[x].p = 0 THEN None ELSE Some(S[x].p)
FirstChildOrTok(S, x) == First(S[x].c)
LastChildOrTok(S, x)  == Final(S[x].c)
FirstChild(S, x)  == First(NodesOf(S, S[x].c))
LastChild(S, x)   == Final(NodesOf(S, S[x].c))
NextOrTok(S, x)   == First(After(S, x))
PrevOrTok(S, x)   == First(Before(S, x))
NextSib(S, x)     == First(NodesOf(S, After(S, x)))
PrevSib(S, x)     == First(NodesOf(S, Before(S, x)))
FirstTok(S, x)    == First(Toks(S, x))
LastTok(S, x)     == Final(Toks(S, x))

\* the token after or before token x in its whole tree
NextTok(S, x) == LET ts == Toks(S, RootOf(S, x))
                     i == CHOOSE j \in DOMAIN ts : ts[j] = x
                 IN IF i = Len(ts) THEN None ELSE Some(ts[i + 1])
PrevTok(S, x) == LET ts == Toks(S, RootOf(S, x))
                     i == CHOOSE j \in DOMAIN ts : ts[j] = x
                 IN IF i = 1 THEN None ELSE Some(ts[i - 1])

\* navigation by name; K is a set of kinds for the filtered steps
Nav(S, x, op, K) ==
    CASE op = "parent"             -> Parent(S, x)
      [] op = "first_child"        -> FirstChild(S, x)
      [] op = "last_child"         -> LastChild(S, x)
      [] op = "first_child_or_token" -> FirstChildOrTok(S, x)
      [] op = "last_child_or_token"  -> LastChildOrTok(S, x)
      [] op = "next_sibling"       -> NextSib(S, x)
      [] op = "prev_sibling"       -> PrevSib(S, x)
      [] op = "next_sibling_or_token" -> NextOrTok(S, x)
      [] op = "prev_sibling_or_token" -> PrevOrTok(S, x)
      [] op = "to_next_sibling"    -> NextSib(S, x)
      [] op = "to_next_sibling_or_token" -> NextOrTok(S, x)
      [] op = "first_token"        -> FirstTok(S, x)
      [] op = "last_token"         -> LastTok(S, x)
      [] op = "next_token"         -> NextTok(S, x)
      [] op = "prev_token"         -> PrevTok(S, x)
      [] op = "first_child_by_kind"  -> First(OfKinds(S, NodesOf(S, S[x].c), K))
      [] op = "first_child_or_token_by_kind" -> First(OfKinds(S, S[x].c, K))
      [] op = "next_sibling_by_kind" -> First(OfKinds(S, NodesOf(S, After(S, x)), K))
      [] op = "next_sibling_or_token_by_kind" -> First(OfKinds(S, After(S, x), K))
      [] op = "clone" -> Some(x)
      [] op \in {"as_node", "into_node"} -> IF S[x].n = 1 THEN Some(x) ELSE None
      [] op \in {"as_token", "into_token"} -> IF S[x].n = 0 THEN Some(x) ELSE None
      [] OTHER -> <<-1>>

\* sequences by name
SeqBy(S, x, op, K) ==
    CASE op = "ancestors"             -> Ancestors(S, x)
      [] op = "parent_ancestors"      -> Ancestors(S, S[x].p)
      [] op = "children"              -> NodesOf(S, S[x].c)
      [] op = "children_with_tokens"  -> S[x].c
      [] op = "children_by_kind"      -> OfKinds(S, NodesOf(S, S[x].c), K)
      [] op = "children_with_tokens_by_kind" -> OfKinds(S, S[x].c, K)
      [] op = "siblings_next"         -> <<x>> \o NodesOf(S, After(S, x))
      [] op = "siblings_prev"         -> <<x>> \o NodesOf(S, Before(S, x))
      [] op = "siblings_with_tokens_next" -> <<x>> \o After(S, x)
      [] op = "siblings_with_tokens_prev" -> <<x>> \o Before(S, x)
      [] op = "descendants"           -> NodesOf(S, Pre(S, x))
      [] op = "descendants_with_tokens" -> Pre(S, x)
      [] OTHER -> <<-1>>

-----------------------------------------------------------------------------
(* Walks.  An event is <<1, x>> (enter) or <<0, x>> (leave).               *)

WalkKids(S, x, tok) == IF tok = 1 THEN S[x].c ELSE NodesOf(S, S[x].c)

\* the complete walk, by recursion over the structure
RECURSIVE Walk(_, _, _)
Walk(S, x, tok) ==
    Append(FoldLeft(LAMBDA a, y : a \o Walk(S, y, tok), <<<<1, x>>>>, WalkKids(S, x, tok)),
           <<0, x>>)

\* one step: the event after ev in a walk started at x0; skip: the
\* subtree entered by ev is not to be visited
WalkNext(S, x0, tok, ev, skip) ==
    LET x == ev[2] IN
    IF ev[1] = 1
    THEN IF skip \/ WalkKids(S, x, tok) = <<>> THEN Some(<<0, x>>)
         ELSE Some(<<1, WalkKids(S, x, tok)[1]>>)
    ELSE IF x = x0 THEN None
    ELSE LET r == IF tok = 1 THEN NextOrTok(S, x) ELSE NextSib(S, x)
         IN IF r = None THEN Some(<<0, S[x].p>>) ELSE Some(<<1, r[1]>>)

-----------------------------------------------------------------------------
(* Position queries *)

\* tokens at an offset: <<>>, <<single>> or <<left, right>>
TokAt(S, x, off) ==
    LET ts == SelectSeq(Toks(S, x), LAMBDA y : S[y].w > 0)
        inn == SelectSeq(ts, LAMBDA y : Start(S, y) < off /\ off < End(S, y))
        lef == SelectSeq(ts, LAMBDA y : End(S, y) = off)
        rig == SelectSeq(ts, LAMBDA y : Start(S, y) = off)
    IN IF inn # <<>> THEN inn ELSE Final(lef) \o First(rig)

Covers(S, x, s, e) == Start(S, x) <= s /\ e <= End(S, x)

\* acceptable answers of the covering query
Covering(S, x, s, e) ==
    { y \in Range(Pre(S, x)) : /\ Covers(S, y, s, e)
                               /\ \A i \in DOMAIN S[y].c : ~Covers(S, S[y].c[i], s, e) }

\* acceptable answers of the child query
ChildAt(S, x, s, e) == { y \in Range(S[x].c) : Covers(S, y, s, e) }

(* The same from one list of the elements of a subtree and their ranges    *)
RECURSIVE SpansAt(_, _, _)
SpansAt(S, x, s) ==
    LET step(a, y) == [l |-> a.l \o SpansAt(S, y, a.o), o |-> a.o + S[y].w]
    IN FoldLeft(step, [l |-> <<[x |-> x, s |-> s, e |-> s + S[x].w]>>, o |-> s], S[x].c).l
Spans(S, x) == SpansAt(S, x, Start(S, x))
TokAtIn(S, sp, off) ==
    LET ts == SelectSeq(sp, LAMBDA v : S[v.x].n = 0 /\ v.s < v.e /\ v.s <= off /\ off <= v.e)
        inn == SelectSeq(ts, LAMBDA v : v.s < off /\ off < v.e)
    IN MapSeq(IF inn # <<>> THEN inn ELSE ts, LAMBDA v : v.x)
CoveringIn(S, sp, s, e) ==
    LET C == { v.x : v \in Range(SelectSeq(sp, LAMBDA v : v.s <= s /\ e <= v.e)) }
    IN C \ { S[y].p : y \in C }
ChildAtIn(S, sp, x, s, e) ==
    { v.x : v \in Range(SelectSeq(sp, LAMBDA v : v.s <= s /\ e <= v.e /\ S[v.x].p = x)) }
PtrTargetsIn(S, sp, k, s, e) ==
    { v.x : v \in Range(SelectSeq(sp, LAMBDA v : v.s = s /\ v.e = e /\ S[v.x].n = 1 /\ S[v.x].k = k)) }

-----------------------------------------------------------------------------
(* Edits of mutable trees *)

\* add d to the lengths of x and everything above
RECURSIVE Widen(_, _, _)
Widen(S, x, d) == IF x = 0 \/ d = 0 THEN S ELSE Widen([S EXCEPT ![x].w = @ + d], S[x].p, d)

Detach(S, x) ==
    IF S[x].p = 0 THEN S
    ELSE LET p == S[x].p
             S1 == [S EXCEPT ![x].p = 0,
                             ![p].c = SelectSeq(@, LAMBDA y : y # x)]
         IN Widen(S1, p, 0 - S[x].w)

\* x must be a root; i: 0-based place among the children of p
Attach(S, p, i, x) ==
    LET S1 == [S EXCEPT ![x].p = p, ![p].c = SpliceSeq(@, i, i, <<x>>)]
    IN Widen(S1, p, S[x].w)

\* deletion of the children lo..hi-1 of x (existing ones only)
DeleteRange(S, x, lo, hi) ==
    LET c == S[x].c
        del == SelectSeq([i \in 1..Len(c) |-> <<i - 1, c[i]>>], LAMBDA q : lo <= q[1] /\ q[1] < hi)
    IN FoldLeft(LAMBDA a, q : Detach(a, q[2]), S, del)

\* One insertion.  An accumulator [s, i, ok]: store, place of the next
\* insertion, and whether no insertion was refused yet.  The element is
\* taken out of wherever it is first; then the place must exist, the
\* element must be mutable and must not be p or above p.
InsertStep(p, a, x) ==
    IF ~a.ok THEN a
    ELSE IF a.s[x].m = 0 THEN [a EXCEPT !.ok = FALSE]
    ELSE LET S1 == Detach(a.s, x)
         IN IF a.i > Len(S1[p].c) \/ IsBelow(S1, p, x) THEN [s |-> S1, i |-> a.i, ok |-> FALSE]
            ELSE [s |-> Attach(S1, p, a.i, x), i |-> a.i + 1, ok |-> TRUE]

Splice(S, x, lo, hi, ins) ==
    FoldLeft(LAMBDA a, y : InsertStep(x, a, y),
             [s |-> DeleteRange(S, x, lo, hi), i |-> lo, ok |-> TRUE], ins)

\* a mutable copy of the whole tree of x: [s, r], r the copy of x
CloneForUpdate(S, x) ==
    LET f == Plant(S, Val(S, RootOf(S, x)), 1)
    IN [s |-> f.s, r |-> AtPath(f.s, f.r, Path(S, x))]

\* an immutable copy of the subtree of x alone
CloneSubtree(S, x) == Plant(S, Val(S, x), 0)

\* the green tree of x's tree with x replaced by g
ReplaceWith(S, x, g) == GReplaceAt(Val(S, RootOf(S, x)), Path(S, x), g)

-----------------------------------------------------------------------------
(* Node pointers *)

\* nodes of the tree of root r that a pointer [k, s, e] may resolve to
PtrTargets(S, r, k, s, e) ==
    { y \in Range(Pre(S, r)) : S[y].n = 1 /\ S[y].k = k /\ Start(S, y) = s /\ End(S, y) = e }

-----------------------------------------------------------------------------
(* What a client sees of an element through the accessors *)

Proj(S, x) == [n |-> S[x].n, k |-> S[x].k, s |-> Start(S, x), e |-> End(S, x), p |-> Path(S, x)]

\* a whole subtree, in document order, with absolute ranges
RECURSIVE FlatAt(_, _, _, _)
FlatAt(S, x, d, s) ==
    LET step(a, y) == [l |-> a.l \o FlatAt(S, y, d + 1, a.o), o |-> a.o + S[y].w]
    IN FoldLeft(step,
         [l |-> <<[n |-> S[x].n, k |-> S[x].k, d |-> d, s |-> s, e |-> s + S[x].w, t |-> S[x].t]>>,
          o |-> s], S[x].c).l
Flat(S, x) == FlatAt(S, x, 0, Start(S, x))

-----------------------------------------------------------------------------
(* Well-formedness of a store (an invariant of every specification that    *)
(* uses one)                                                               *)

WellFormed(S) ==
    \A x \in DOMAIN S :
        /\ S[x].n = 0 => S[x].c = <<>>
        /\ S[x].n = 1 => S[x].t = <<>>
        /\ S[x].p # 0 => /\ S[S[x].p].n = 1
                         /\ S[S[x].p].m = S[x].m
                         /\ Cardinality({i \in DOMAIN S[S[x].p].c : S[S[x].p].c[i] = x}) = 1
        /\ \A i \in DOMAIN S[x].c : S[S[x].c[i]].p = x
        /\ S[x].w = (IF S[x].n = 0 THEN BLen(S[x].t) ELSE Sum([i \in 1..Len(S[x].c) |-> S[S[x].c[i]].w]))
        /\ ~\E a \in 1..Len(S) : a = x /\ S[x].p # 0 /\ IsBelow(S, S[x].p, x)
=============================================================================
