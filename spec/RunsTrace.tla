----------------------------- MODULE RunsTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories over trees with very many children and     *)
(* very long texts, against the closed forms of Runs (which MCRuns checks  *)
(* against Forest).  Trees, texts and sequences are recorded as runs.      *)
(***************************************************************************)
EXTENDS Runs, Json, TLC, IOUtils

VARIABLES F,  \* trees: sequence of compressed trees; the ones taken over by another stay behind
          M,  \* which of them are mutable
          H,  \* handle -> <<>> or place <<tree, path>>
          G,  \* green slot -> <<>> or <<compressed tree>>
          l
vars == <<F, M, H, G>>

Handles == 1..12
Slots == 1..8
Trace == ndJsonDeserialize(IOEnv.TRACE)

TInit == F = <<>> /\ M = <<>> /\ H = [h \in Handles |-> <<>>] /\ G = [g \in Slots |-> None] /\ l = 1

Chk(tag, exp, act) ==
    IF exp = act THEN TRUE
    ELSE PrintT(<<"MISMATCH", l, tag, "expected", exp, "recorded", act>>) /\ FALSE
Need(tag, b, act) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, tag, "recorded", act>>) /\ FALSE

Tr(lg, k)  == CASE lg = 0 -> k [] lg = 1 -> 65535 - k [] OTHER -> (k + 77) % 65536
Inv(lg, q) == CASE lg = 0 -> q [] lg = 1 -> 65535 - q [] OTHER -> (q + 65459) % 65536
RawKinds(lg, K) == { Inv(lg, K[i]) : i \in DOMAIN K }

Tree(h) == F[H[h][1]]
Path(h) == H[h][2]
El(h) == RAt(Tree(h), Path(h))
PP(h, lg, p) == [RProj(Tree(h), p) EXCEPT !.k = Tr(lg, @)]
PPs(h, lg, ps) == MapSeq(ps, LAMBDA p : PP(h, lg, p))
Segs(lg, ss) == MapSeq(ss, LAMBDA q : [q EXCEPT !.k = Tr(lg, @)])
RECURSIVE SkTr(_, _)
SkTr(lg, k) == [k EXCEPT !.k = Tr(lg, @), !.c = [i \in 1..Len(@) |-> Run(SkTr(lg, @[i].u), @[i].n)]]

B01(b) == IF b THEN 1 ELSE 0
Same == UNCHANGED vars
Live == {h \in Handles : H[h] # <<>>}
PlaceOf(h, r) == IF r = None THEN <<>> ELSE <<H[h][1], r[1]>>
Keep(d, q) == H' = IF d = 0 \/ q = <<>> THEN H ELSE [H EXCEPT ![d] = q]
\* new trees of an edit inherit being mutable
Edit(z) == F' = z.f /\ H' = [h \in Handles |-> IF h \in DOMAIN z.h THEN z.h[h] ELSE <<>>]
           /\ M' = [i \in DOMAIN z.f |-> IF i \in DOMAIN M THEN M[i] ELSE 1] /\ UNCHANGED G
Z == [f |-> F, h |-> [h \in Live |-> H[h]]]
NewTree(g, m, d, p) ==
    F' = Append(F, g) /\ M' = Append(M, m) /\ H' = [H EXCEPT ![d] = <<Len(F) + 1, p>>] /\ UNCHANGED G

Boom == [n |-> -9, k |-> 0, s |-> 0, e |-> 0, p |-> <<>>]

-----------------------------------------------------------------------------
QTokAt(e) == \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
        u == El(e.h)
        o == q[1] - RStart(Tree(e.h), Path(e.h))
    IN IF 0 <= o /\ o <= RLen(u)
       THEN Chk(<<"token_at_offset", q[1]>>, PPs(e.h, e.l, MapSeq(RTokAt(u, o), LAMBDA p : Path(e.h) \o p)), q[2])
       ELSE Chk(<<"token_at_offset outside", q[1]>>, <<Boom>>, q[2])
QCover(e) == \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
        g == Tree(e.h)
    IN IF RStart(g, Path(e.h)) <= q[1] /\ q[2] <= REnd(g, Path(e.h))
       THEN Need(<<"covering_element", q[1], q[2]>>,
                 CoverOk(g, Path(e.h), q[3].p, q[1], q[2]) /\ q[3] = PP(e.h, e.l, q[3].p), q[3])
       ELSE Chk(<<"covering_element outside", q[1], q[2]>>, Boom, q[3])
QChildAt(e) == \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
        g == Tree(e.h)
    IN IF q[3] = <<>> THEN Need(<<"child_or_token_at_range", q[1], q[2]>>, ChildOk(g, Path(e.h), None, q[1], q[2]), q[3])
       ELSE Need(<<"child_or_token_at_range", q[1], q[2]>>,
                 ChildOk(g, Path(e.h), Some(q[3][1].p), q[1], q[2]) /\ q[3][1] = PP(e.h, e.l, q[3][1].p), q[3])

QObs(e) ==
    /\ Chk("live handles", Live, {e.rs[i].h : i \in DOMAIN e.rs})
    /\ \A i \in DOMAIN e.rs :
         LET q == e.rs[i] IN
         /\ Chk(<<"handle", q.h>>, PP(q.h, e.l, Path(q.h)), q.o)
         /\ q.m # -1 => Chk(<<"is_mutable of handle", q.h>>, M[H[q.h][1]], q.m)

MayCoincide(i, j) == /\ El(i) = El(j) /\ RLen(El(i)) = 0
                     /\ RStart(Tree(i), Path(i)) = RStart(Tree(j), Path(j))
QEqs(e) == \A i \in DOMAIN e.rs :
    LET q == e.rs[i] IN
    /\ H[q.i] = H[q.j] => Chk(<<"same element, handles", q.i, q.j>>, <<1, 1>>, <<q.eq, q.hq>>)
    /\ (H[q.i] # H[q.j] /\ H[q.i][1] = H[q.j][1] /\ ~MayCoincide(q.i, q.j)) =>
          Chk(<<"different elements, handles", q.i, q.j>>, 0, q.eq)
    /\ q.eq = 1 => Chk(<<"hash of equal handles", q.i, q.j>>, 1, q.hq)
QGEqs(e) == \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
    IN /\ Chk(<<"equality of green slots", q.i, q.j>>, B01(G[q.i] = G[q.j]), q.eq)
       /\ q.eq = 1 => Chk(<<"hash of equal green slots", q.i, q.j>>, 1, q.hq)

\* green accessors: at: [i, nth, nth_back]
Brief(u) == [n |-> u.n, k |-> u.k, w |-> RLen(u)]
QGKids(e) ==
    LET g == G[e.g][1]
        n == Count(g.c)
        at(i) == IF i < 0 \/ i >= n THEN <<>> ELSE <<Brief(UnitAt(g.c, i))>>
    IN /\ Chk("green length, text length, children", <<RLen(g), n>>, <<e.len, e.n>>)
       /\ Chk("green children", RSegs(g, <<>>, 0, n, AnyU), e.fwd)
       /\ Chk("green children backwards", Reverse(RSegs(g, <<>>, 0, n, AnyU)), e.back)
       /\ \A i \in DOMAIN e.at :
            Chk(<<"nth green child", e.at[i][1]>>, <<at(e.at[i][1]), at(n - 1 - e.at[i][1])>>, <<e.at[i][2], e.at[i][3]>>)

\* pointers: made from the node f, resolved from the root of its tree
QPtr(e) ==
    LET g == Tree(e.f)
        x == PP(e.f, 1, Path(e.f))
    IN /\ Chk("kind and range of a pointer", <<x.k, x.s, x.e>>, e.pk)
       /\ Need("a node of this kind and range", e.r # <<>> /\ <<e.r[1].k, e.r[1].s, e.r[1].e>> = <<x.k, x.s, x.e>>, e.r)
       /\ PtrCount(g, RAt(g, Path(e.f)).k, x.s, x.e) = 1 => Chk("the node itself", <<x>>, e.r)

\* text views
QText(e) ==
    LET t == FoldLeft(LAMBDA a, q : TSlice(a, q[1], q[2]), RText(El(e.h)), e.qs)
    IN /\ Chk("len, is_empty", <<TBytes(t), B01(t = <<>>)>>, <<e.len, e.emp>>)
       /\ Chk("strings", <<t, t, t>>, <<e.str, e.fmt, e.into>>)
       /\ Chk("chunks", <<t, 1>>, <<e.chunks, e.tried>>)
       /\ \A i \in DOMAIN e.find : Chk(<<"find_char", e.find[i][1]>>, TFind(t, e.find[i][1]), e.find[i][2])
       /\ \A i \in DOMAIN e.has : Chk(<<"contains_char", e.has[i][1]>>, <<B01(TFind(t, e.has[i][1]) # <<>>)>>, e.has[i][2])
       /\ \A i \in DOMAIN e.at :
            TIsBound(t, e.at[i][1]) \/ e.at[i][1] >= TBytes(t) =>
               Chk(<<"char_at", e.at[i][1]>>, TCharAt(t, e.at[i][1]), e.at[i][2])
       /\ \A i \in DOMAIN e.cmp :
            LET b == B01(t = e.cmp[i][1])
            IN Chk(<<"comparison with", e.cmp[i][1]>>, <<b, b, b>>, e.cmp[i][2])
QTextCmp(e) ==
    LET V(h, qs) == FoldLeft(LAMBDA a, q : TSlice(a, q[1], q[2]), RText(El(h)), qs)
        b == B01(V(e.h, e.qs) = V(e.h2, e.qs2))
    IN Chk("comparison of views", <<b, b>>, e.r)

LoopSel(op, K) == [nodes |-> op \in {"children", "children_by_kind"}, all |-> op \in {"children", "children_with_tokens"}, K |-> K]
-----------------------------------------------------------------------------
TStep(e) ==
    CASE e.a = "reset" -> /\ F' = <<>> /\ M' = <<>> /\ H' = [h \in Handles |-> <<>>] /\ G' = [g \in Slots |-> None]
      [] e.a = "note" -> Same
      [] e.a = "end" -> /\ Chk("blocks in use at the end, and blocks released twice", <<0, 0>>, <<e.n, e.df>>)
                        /\ H' = [h \in Handles |-> <<>>] /\ G' = [g \in Slots |-> None] /\ UNCHANGED <<F, M>>
      \* e.g: what was built, e.o: what it contains
      [] e.a = "green" -> /\ G' = [G EXCEPT ![e.d] = Some(RCanon(e.g))] /\ UNCHANGED <<F, M, H>>
                          /\ Chk("green tree", RCanon(e.g), e.o)
                          /\ e.sh # <<>> => Chk("distinct tokens, and objects for them", e.sh[1], e.sh[2])
      [] e.a = "root" -> /\ NewTree(G[e.g][1], e.m, e.d, <<>>)
                         /\ Chk("new root", [RProj(G[e.g][1], <<>>) EXCEPT !.k = Tr(e.l, @)], e.o)
      [] e.a = "goto" -> /\ Keep(e.d, <<H[e.h][1], Path(e.h) \o e.p>>) /\ UNCHANGED <<F, M, G>>
                         /\ Chk("element at path", <<PP(e.h, e.l, Path(e.h) \o e.p)>>, e.r)
      [] e.a = "step" ->
           LET r == RNav(Tree(e.h), Path(e.h), e.op, RawKinds(e.l, e.K))
           IN /\ Keep(e.d, PlaceOf(e.h, r)) /\ UNCHANGED <<F, M, G>>
              /\ Chk(e.op, PPs(e.h, e.l, r), e.r)
      [] e.a = "seg" ->
           Chk(e.op, Segs(e.l, RSeqBy(Tree(e.h), Path(e.h), e.op, RawKinds(e.l, e.K))), e.r) /\ Same
      [] e.a = "skel" ->
           /\ Chk("skeleton", SkTr(e.l, Skel(El(e.h), e.tok, RawKinds(e.l, e.skip))), e.o)
           /\ Chk("elements left that were not entered", 0, e.odd) /\ Same
      [] e.a = "tokat" -> QTokAt(e) /\ Same
      [] e.a = "cover" -> QCover(e) /\ Same
      [] e.a = "childat" -> QChildAt(e) /\ Same
      [] e.a = "obs" -> QObs(e) /\ Same
      [] e.a = "eqs" -> QEqs(e) /\ Same
      [] e.a = "geqs" -> QGEqs(e) /\ Same
      [] e.a = "gkids" -> QGKids(e) /\ Same
      [] e.a = "ptr" -> QPtr(e) /\ Same
      [] e.a = "text" -> QText(e) /\ Same
      [] e.a = "textcmp" -> QTextCmp(e) /\ Same
      [] e.a = "disp" -> Chk("Display", RText(El(e.h)), e.o) /\ Same
      [] e.a = "drop" -> H' = [H EXCEPT ![e.h] = <<>>] /\ UNCHANGED <<F, M, G>>
      [] e.a = "dropg" -> G' = [G EXCEPT ![e.g] = None] /\ UNCHANGED <<F, M, H>>
      [] e.a = "cfu" -> /\ NewTree(Tree(e.h), 1, e.d, Path(e.h))
                        /\ Chk("clone_for_update", [PP(e.h, e.l, Path(e.h)) EXCEPT !.p = Path(e.h)], e.o)
      [] e.a = "csub" -> /\ NewTree(El(e.h), 0, e.d, <<>>)
                         /\ Chk("clone_subtree", [RProj(El(e.h), <<>>) EXCEPT !.k = Tr(e.l, @)], e.o)
      [] e.a = "snap" -> /\ G' = [G EXCEPT ![e.d] = Some(El(e.h))] /\ UNCHANGED <<F, M, H>>
                         /\ Chk("green tree of a handle", El(e.h), e.o)
      [] e.a = "repl" -> LET r == RPut(Tree(e.h), Path(e.h), G[e.g][1])
                         IN /\ G' = [G EXCEPT ![e.d] = Some(r)] /\ UNCHANGED <<F, M, H>>
                            /\ Chk("replace_with", r, e.o)
      [] e.a = "gedit" -> LET r == RSplice(G[e.g][1], <<>>, e.lo, e.hi, MapSeq(e.xs, LAMBDA q : Run(G[q][1], 1)))
                          IN /\ G' = [G EXCEPT ![e.d] = Some(r)] /\ UNCHANGED <<F, M, H>>
                             /\ Chk(e.op, r, e.o)
      [] e.a = "detach" -> Edit(EDetach(Z, H[e.h])) /\ Chk("outcome", "ok", e.st)
      [] e.a = "splice" -> LET r == ESplice(Z, e.h, e.lo, e.hi, e.ins)
                           IN Edit(r.z) /\ Chk("outcome", IF r.ok THEN "ok" ELSE "panic", e.st)
      [] e.a = "loop" ->
           LET K == RawKinds(e.l, e.K)
               q == LoopSel(e.op, K)
               P(u) == (q.nodes => u.n = 1) /\ (q.all \/ u.k \in K)
           IN /\ Chk("how many were visited", Count(SelectSeq(El(e.h).c, LAMBDA r : P(r.u))), e.n)
              /\ Edit(ELoop(Z, H[e.h], P)) /\ Chk("outcome", "ok", e.st)

TNext == /\ l <= Len(Trace)
         /\ TStep(Trace[l])
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
