------------------------------ MODULE MCForest ------------------------------
(***************************************************************************)
(* The queries of Forest, TextView and Render checked against laws that    *)
(* do not use their definitions, over every small tree.  One state per     *)
(* tree, planted after another tree (so that positions in the store and    *)
(* positions in the tree differ).                                          *)
(***************************************************************************)
EXTENDS TextView, Small, TLC, Json, IOUtils

VARIABLES g, S, r

N == IF "SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.SIZE) ELSE 5
Other == GNode(9, <<GTok(9, <<120>>)>>)

FInit == /\ g \in Trees(N, {LeafEmpty, LeafA, LeafE}, {1})
         /\ LET f == Plant(Plant(NoStore, Other, 0).s, g, 0) IN S = f.s /\ r = f.r
FNext == FALSE /\ UNCHANGED <<g, S, r>>
FSpec == FInit /\ [][FNext]_<<g, S, r>>

\* hand the tree to the conformance driver
Emit == "EMIT" \in DOMAIN IOEnv => PrintT("TREE " \o ToJson(g))

X == { x \in DOMAIN S : RootOf(S, x) = r }
Toks0 == { x \in X : S[x].n = 0 }
Nodes0 == { x \in X : S[x].n = 1 }
Txt0 == GText(g)

Inv_Store == WellFormed(S) /\ Val(S, r) = g /\ \A x \in X : AtPath(S, r, Path(S, x)) = x /\ GAt(g, Path(S, x)) = Val(S, x)

\* C04: children tile their parent; the text of an element is the slice of
\* the whole text at its range
Inv_Tiling == \A x \in X :
    /\ Slice(Txt0, Start(S, x), End(S, x)) = GText(Val(S, x))
    /\ S[x].c # <<>> => /\ Start(S, S[x].c[1]) = Start(S, x)
                        /\ End(S, S[x].c[Len(S[x].c)]) = End(S, x)
    /\ \A i \in 1..Len(S[x].c) - 1 : End(S, S[x].c[i]) = Start(S, S[x].c[i + 1])

\* C05: steps undo each other and chain to the whole
RECURSIVE Chain(_, _)
Chain(x, op) == LET q == Nav(S, x, op, {}) IN IF q = <<>> THEN <<x>> ELSE <<x>> \o Chain(q[1], op)
Inv_Nav ==
    /\ \A x \in X, op \in {<<"next_sibling_or_token", "prev_sibling_or_token">>, <<"next_sibling", "prev_sibling">>} :
         LET q == Nav(S, x, op[1], {})
             p == Nav(S, x, op[2], {})
         IN /\ S[x].n = 1 /\ q # <<>> => Nav(S, q[1], op[2], {}) = <<x>>
            /\ S[x].n = 1 /\ p # <<>> => Nav(S, p[1], op[1], {}) = <<x>>
            /\ q # <<>> => S[q[1]].p = S[x].p /\ Index(S, q[1]) > Index(S, x)
            /\ op[1] = "next_sibling_or_token" /\ q # <<>> => Index(S, q[1]) = Index(S, x) + 1
    /\ \A x \in Nodes0 :
         LET f == FirstChildOrTok(S, x)
             b == LastChildOrTok(S, x)
         IN /\ (f = <<>>) = (S[x].c = <<>>)
            /\ f # <<>> => /\ Chain(f[1], "next_sibling_or_token") = S[x].c
                           /\ Reverse(Chain(b[1], "prev_sibling_or_token")) = S[x].c
                           /\ Parent(S, f[1]) = <<x>>
            /\ FirstChild(S, x) # <<>> =>
                 /\ Chain(FirstChild(S, x)[1], "next_sibling") = NodesOf(S, S[x].c)
                 /\ Reverse(Chain(LastChild(S, x)[1], "prev_sibling")) = NodesOf(S, S[x].c)
    /\ (\A x \in Nodes0 : (FirstTok(S, x) = <<>>) = (Toks(S, x) = <<>>))
    /\ (\E x \in Toks0 : PrevTok(S, x) = <<>>) = (Toks0 # {})
    /\ FirstTok(S, r) # <<>> =>
         /\ Range(Chain(FirstTok(S, r)[1], "next_token")) = Toks0
         /\ Chain(FirstTok(S, r)[1], "next_token") = Reverse(Chain(LastTok(S, r)[1], "prev_token"))
         /\ Cat(MapSeq(Chain(FirstTok(S, r)[1], "next_token"), LAMBDA y : S[y].t)) = Txt0

\* C06: the stepwise walk is the recursive one; enter and leave nest
RECURSIVE Steps(_, _, _)
Steps(x, tok, ev) == LET q == WalkNext(S, x, tok, ev, FALSE)
                     IN IF q = <<>> THEN <<ev>> ELSE <<ev>> \o Steps(x, tok, q[1])
Inv_Walk == \A x \in Nodes0, tok \in {0, 1} :
    LET w == Walk(S, x, tok)
        under == { y \in X : IsBelow(S, y, x) /\ (tok = 1 \/ S[y].n = 1) }
    IN /\ Steps(x, tok, <<1, x>>) = w
       /\ Len(w) = 2 * Cardinality(under)
       /\ \A y \in under : \E i, j \in DOMAIN w :
            /\ w[i] = <<1, y>> /\ w[j] = <<0, y>> /\ i < j
            \* in between: exactly what is below y, once each
            /\ { w[k][2] : k \in i..j } = { z \in under : IsBelow(S, z, y) }
            /\ j - i + 1 = 2 * Cardinality({ z \in under : IsBelow(S, z, y) })
            \* skipping leads to the leave event directly
            /\ WalkNext(S, x, tok, <<1, y>>, TRUE) = <<<<0, y>>>>
       \* entered in document order
       /\ \A i, j \in DOMAIN w : i < j /\ w[i][1] = 1 /\ w[j][1] = 1 => w[i][2] < w[j][2]
       /\ tok = 1 => SelectSeq(MapSeq(w, LAMBDA e : e[1] * e[2]), LAMBDA v : v > 0) = Pre(S, x)

\* C07, by the bytes an element occupies
BytesOf(x) == { b \in 0..BLen(Txt0) - 1 : Start(S, x) <= b /\ b < End(S, x) }
Inv_Position == \A x \in Nodes0 :
    /\ \A o \in Start(S, x)..End(S, x) :
         LET q == TokAt(S, x, o)
             \* the owners of the bytes next to the offset, within x
             lft == { y \in Toks0 : o - 1 \in BytesOf(y) /\ o - 1 >= Start(S, x) }
             rgt == { y \in Toks0 : o \in BytesOf(y) /\ o < End(S, x) }
         IN /\ TokAtIn(S, Spans(S, x), o) = q
            /\ Range(q) = lft \cup rgt
            /\ Len(q) = Cardinality(lft \cup rgt)
            /\ Len(q) = 2 => {q[1]} = lft /\ {q[2]} = rgt
    /\ \A s \in Start(S, x)..End(S, x) : \A e \in s..End(S, x) :
         LET sp == Spans(S, x)
             C == Covering(S, x, s, e)
         IN /\ C # {}
            /\ s < e => /\ Cardinality(C) = 1
                        /\ \A y \in C : \A z \in X : IsBelow(S, z, x) /\ (s..e - 1) \subseteq BytesOf(z) => IsBelow(S, y, z)
            /\ \A y \in C : Start(S, y) <= s /\ e <= End(S, y)
            /\ CoveringIn(S, sp, s, e) = C
            /\ ChildAtIn(S, sp, x, s, e) = ChildAt(S, x, s, e)
            /\ s < e => Cardinality(ChildAt(S, x, s, e)) <= 1

\* C13: views against positions in the byte string
Inv_Views == \A x \in Nodes0 :
    LET t == TextOf(S, x)
    IN /\ t = GText(Val(S, x))
       /\ \A i \in 1..Len(t) + 1 : \A j \in i..Len(t) + 1 :
            LET B == Bounds(t)
                v == SliceView(t, [f |-> "range", s |-> B[i], e |-> B[j]])
            IN /\ v = <<SubSeq(t, i, j - 1)>>
               /\ BLen(v[1]) = B[j] - B[i]
               /\ SliceView(t, [f |-> "from", s |-> B[i], e |-> 0])[1] = SubSeq(t, i, Len(t))
               /\ SliceView(t, [f |-> "to", s |-> 0, e |-> B[j]])[1] = SubSeq(t, 1, j - 1)
       /\ \A c \in {97, 233, 120} : LET q == Find(t, c) IN
            /\ (q = <<>>) = ~HasChar(t, c)
            /\ q # <<>> => CharAt(t, q[1]) = <<c>> /\ ~HasChar(Slice(t, 0, q[1]), c)

\* C14: a pointer finds its node, and nothing else of another place
Inv_Ptr == \A x \in Nodes0 :
    LET T == PtrTargets(S, r, S[x].k, Start(S, x), End(S, x))
    IN x \in T /\ PtrTargetsIn(S, Spans(S, r), S[x].k, Start(S, x), End(S, x)) = T /\ \A y \in T : S[y].n = 1 /\ TextOf(S, y) = TextOf(S, x)

\* C16: the flat form determines the tree, its text is the tree's text
Inv_Render ==
    LET F == Flat(S, r)
    IN /\ Len(F) = Cardinality(X)
       /\ Cat(MapSeq(F, LAMBDA f : f.t)) = Txt0
       /\ F = GFlat(g, 0, 0)
       /\ \A i \in 2..Len(F) : F[i].d <= F[i - 1].d + 1 /\ F[i].d >= 1
=============================================================================
