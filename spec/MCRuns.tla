------------------------------- MODULE MCRuns -------------------------------
(***************************************************************************)
(* The closed forms of Runs against the explicit trees of Forest, for all  *)
(* compressed trees of a bounded form.                                     *)
(***************************************************************************)
EXTENDS Forest, IOUtils, TLC
R == INSTANCE Runs

VARIABLES g, edit

Num(x) == CHOOSE n \in 0..9 : ToString(n) = x
RUNS == Num(IOEnv.RUNS)     \* runs of children of the root
EDITS == IOEnv.EDITS = "1"  \* check the edits as well

Toks0 == { R!RTok(1, <<>>), R!RTok(1, <<<<97, 1>>>>), R!RTok(2, <<<<97, 2>>, <<233, 1>>>>) }
U0 == Toks0 \cup { R!RNode(1, <<>>) }
U1 == { R!RNode(2, <<R!Run(R!RTok(1, <<>>), 2)>>),
        R!RNode(1, <<R!Run(R!RTok(1, <<<<97, 1>>>>), 2)>>),
        R!RNode(2, <<R!Run(R!RNode(1, <<>>), 1), R!Run(R!RTok(2, <<<<97, 2>>, <<233, 1>>>>), 2)>>),
        R!RNode(1, <<R!Run(R!RNode(2, <<R!Run(R!RTok(1, <<<<97, 1>>>>), 3)>>), 2), R!Run(R!RTok(1, <<>>), 1)>>) }
Units == IF EDITS THEN { R!RTok(1, <<>>), R!RTok(2, <<<<233, 1>>>>), R!RNode(2, <<>>),
                         R!RNode(1, <<R!Run(R!RTok(1, <<<<97, 1>>>>), 2)>>) }
         ELSE U0 \cup U1
Counts == IF EDITS THEN {1, 2} ELSE {1, 3}

Init == g = R!RNode(1, <<>>) /\ edit = <<>>
Grow == /\ Len(g.c) < RUNS /\ edit = <<>>
        /\ \E u \in Units, n \in Counts : g' = [g EXCEPT !.c = Append(@, R!Run(u, n))]
        /\ UNCHANGED edit
Next == Grow
Spec == Init /\ [][Next]_<<g, edit>>

Law(name, b) == IF b THEN TRUE ELSE PrintT(<<"LAW", name, g>>) /\ FALSE

\* the compressed form of an explicit tree
RECURSIVE Compress(_)
Compress(e) ==
    IF e.n = 0 THEN R!RTok(e.k, R!TNorm([i \in 1..Len(e.t) |-> <<e.t[i], 1>>]))
    ELSE R!RNode(e.k, R!NormRuns([i \in 1..Len(e.c) |-> R!Run(Compress(e.c[i]), 1)]))

E == R!RExpand(g)
Ops == {"parent", "first_child", "last_child", "first_child_or_token", "last_child_or_token", "next_sibling",
        "prev_sibling", "next_sibling_or_token", "prev_sibling_or_token", "first_token", "last_token"}
OpsT == {"next_token", "prev_token"}
OpsK == {"first_child_by_kind", "first_child_or_token_by_kind", "next_sibling_by_kind", "next_sibling_or_token_by_kind"}
Seqs == {"children", "children_with_tokens", "siblings_next", "siblings_prev", "siblings_with_tokens_next",
         "siblings_with_tokens_prev"}
SeqsK == {"children_by_kind", "children_with_tokens_by_kind"}

\* segments element by element; d: 1 forwards, -1 backwards
SegItems(ss, d) ==
    FoldLeft(LAMBDA a, q : a \o [j \in 1..q.m |-> LET i == IF d = 1 THEN j - 1 ELSE q.m - j
                                                  IN <<q.i + i, q.n, q.k, q.w, q.s + i * q.w>>], <<>>, ss)
Item(S, x) == <<IF S[x].p = 0 THEN 0 ELSE Index(S, x), S[x].n, S[x].k, S[x].w, Start(S, x)>>
Back(op) == op \in {"siblings_prev", "siblings_with_tokens_prev"}

\* a skeleton element by element
RECURSIVE SkFlat(_, _, _)
SkFlat(u, d, s) ==
    LET one(a, v) == [l |-> a.l \o SkFlat(v, d + 1, a.o + v.g), o |-> a.o + v.g + v.w]
        step(a, r) == FoldLeft(LAMBDA b, i : one(b, r.u), a, [i \in 1..r.n |-> i])
    IN FoldLeft(step, [l |-> <<[n |-> u.n, k |-> u.k, d |-> d, s |-> s, e |-> s + u.w, t |-> R!TExpand(u.t)]>>, o |-> s], u.c).l
RECURSIVE Cut(_, _, _)
Cut(S, x, Skip) == IF S[x].k \in Skip THEN <<x>> ELSE FoldLeft(LAMBDA a, y : a \o Cut(S, y, Skip), <<x>>, S[x].c)
FlatOf(S, xs, x0) == MapSeq(xs, LAMBDA x : [n |-> S[x].n, k |-> S[x].k, d |-> Len(Path(S, x)) - Len(Path(S, x0)),
                                            s |-> Start(S, x), e |-> End(S, x), t |-> S[x].t])

Texts == LET t == R!RText(g)
             e == R!TExpand(t)
             b == {0} \cup Range(Bounds(e))
         IN /\ Law("text", e = GText(E))
            /\ Law("bytes", R!TBytes(t) = BLen(e))
            /\ Law("bounds", \A o \in 0..BLen(e) + 1 : R!TIsBound(t, o) = IsBound(e, o))
            /\ \A s \in b, f \in b : s <= f => Law("slice", R!TExpand(R!TSlice(t, s, f)) = Slice(e, s, f))
            /\ \A s \in b : Law("char_at", R!TCharAt(t, s) = (IF s = BLen(e) THEN <<>> ELSE <<e[CharsBefore(e, s) + 1]>>))
            /\ \A c \in {97, 98, 233} :
                 LET q == SelectSeq([i \in 1..Len(e) |-> i], LAMBDA i : e[i] = c)
                 IN Law("find", R!TFind(t, c) = (IF q = <<>> THEN <<>> ELSE <<Bounds(e)[q[1]]>>))

Queries ==
    LET S == Plant(NoStore, E, 0).s
        n == GLen(E)
        P(x) == Path(S, x)
        PS(xs) == MapSeq(xs, LAMBDA x : Path(S, x))
    IN /\ Law("canonical form", R!RCanon(g) = Compress(E) /\ R!RExpand(R!RCanon(g)) = E)
       /\ Law("length", R!RLen(g) = n)
       /\ Texts
       /\ \A x \in DOMAIN S :
            LET p == Path(S, x) IN
            /\ Law("place", R!RHas(g, p) /\ R!RProj(g, p) = Proj(S, x) /\ R!RExpand(R!RAt(g, p)) = Val(S, x))
            /\ \A op \in Ops : Law(op, (S[x].n = 0 /\ op \in {"first_token", "last_token"}) \/
                                       R!RNav(g, p, op, {}) = PS(Nav(S, x, op, {})))
            /\ S[x].n = 0 => \A op \in OpsT : Law(op, R!RNav(g, p, op, {}) = PS(Nav(S, x, op, {})))
            /\ \A op \in OpsK, K \in {{1}, {2}} : Law(op, R!RNav(g, p, op, K) = PS(Nav(S, x, op, K)))
            /\ \A op \in (IF S[x].n = 1 THEN Seqs ELSE {"siblings_with_tokens_next", "siblings_with_tokens_prev"}) :
                 Law(op, SegItems(R!RSeqBy(g, p, op, {}), IF Back(op) THEN 0 - 1 ELSE 1) =
                         MapSeq(SeqBy(S, x, op, {}), LAMBDA y : Item(S, y)))
            /\ S[x].n = 1 => \A op \in SeqsK, K \in {{1}, {2}} :
                 Law(op, SegItems(R!RSeqBy(g, p, op, K), 1) = MapSeq(SeqBy(S, x, op, K), LAMBDA y : Item(S, y)))
            /\ \A tok \in {0, 1}, Skip \in {{}, {2}} : S[x].n = 1 =>
                 LET sk == R!Skel(R!RAt(g, p), tok, Skip)
                     xs == SelectSeq(Cut(S, x, Skip), LAMBDA y : tok = 1 \/ S[y].n = 1)
                 IN Law("skeleton", SkFlat(sk, 0, Start(S, x)) = FlatOf(S, xs, x))
            /\ S[x].n = 1 =>
                 \A s \in Start(S, x)..End(S, x) :
                    /\ Law("token_at", MapSeq(R!RTokAt(R!RAt(g, p), s - Start(S, x)), LAMBDA q : p \o q) = PS(TokAt(S, x, s)))
                    /\ \A f \in s..End(S, x) :
                         /\ Law("covering", {y \in DOMAIN S : R!CoverOk(g, p, P(y), s, f)} = Covering(S, x, s, f))
                         /\ Law("child", {y \in DOMAIN S : R!ChildOk(g, p, Some(P(y)), s, f)} = ChildAt(S, x, s, f))
                         /\ Law("no child", R!ChildOk(g, p, None, s, f) = (ChildAt(S, x, s, f) = {}))
            /\ S[x].n = 1 => Law("pointer", R!PtrCount(g, S[x].k, Start(S, x), End(S, x))
                                            = Cardinality(PtrTargets(S, 1, S[x].k, Start(S, x), End(S, x))))

\* edits: all elements of two equal trees with handles, or only the ones taking part
EditsOk ==
    LET S0 == Plant(NoStore, E, 1).s
        f == Plant(S0, E, 1)
        S == f.s
        N == Len(S)
        root2 == f.r
        place(T, x) == <<RootOf(T, x), Path(T, x)>>
        start(hs) == [f |-> <<g, g>>, h |-> [a \in hs |-> LET q == place(S, a) IN <<IF q[1] = 1 THEN 1 ELSE 2, q[2]>>]]
        same(z, T) == \A a \in DOMAIN z.h :
                        LET q == z.h[a] IN
                        /\ q[2] = Path(T, a)
                        /\ R!RExpand(z.f[q[1]]) = Val(T, RootOf(T, a))
                        /\ z.f[q[1]] = R!RCanon(z.f[q[1]]) \/ g # R!RCanon(g)
                        /\ \A b \in DOMAIN z.h : (z.h[b][1] = q[1]) = (RootOf(T, b) = RootOf(T, a))
    IN /\ \A x \in DOMAIN S0 : \A hs \in {DOMAIN S, {x, 1}} :
            LET z == start(hs) IN Law("detach", same(R!EDetach(z, z.h[x]), Detach(S, x)))
       /\ \A x \in DOMAIN S0 : S0[x].n = 1 =>
            \A q \in {<<"children", {}>>, <<"children_with_tokens", {}>>, <<"children_by_kind", {1}>>,
                      <<"children_with_tokens_by_kind", {2}>>} :
              \A hs \in {DOMAIN S, {x, 1}, {x} \cup {y \in DOMAIN S : y % 2 = 0}} :
                 LET z == start(hs)
                     T == FoldLeft(LAMBDA a, y : Detach(a, y), S, SeqBy(S, x, q[1], q[2]))
                 IN Law(<<"loop", x, q, hs>>, same(R!ELoop(z, z.h[x], LAMBDA u :
                           /\ q[1] \in {"children", "children_by_kind"} => u.n = 1
                           /\ q[2] = {} \/ u.k \in q[2]), T))
       /\ \A x \in DOMAIN S0 : S0[x].n = 1 =>
            \A lo \in 0..Len(S0[x].c) + 1 : \A hi \in {lo, lo + 1, lo + 3} :
              \A ins \in {<<>>} \cup {<<y>> : y \in DOMAIN S} \cup {<<2, root2>>} :
                \A hs \in {DOMAIN S, {x} \cup Range(ins)} :
                  (Range(ins) \subseteq DOMAIN S) =>
                  LET r == R!ESplice(start(hs), x, lo, hi, ins)
                      T == Splice(S, x, lo, hi, ins)
                  IN Law(<<"splice", x, lo, hi, ins, hs>>, r.ok = T.ok /\ same(r.z, T.s))

Laws == IF EDITS THEN EditsOk ELSE Queries
=============================================================================
