---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validates recorded sessions of the real library against Session: every  *)
(* recorded event must be an action of Session whose result is the         *)
(* recorded one, and every recorded observation must be what the state     *)
(* says.  One line of the trace per step; "reset" starts a new session.    *)
(***************************************************************************)
EXTENDS Session, TextView, Json, TLC, IOUtils

VARIABLE l

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

TInit == SInit /\ l = 1

Chk(tag, exp, act) ==
    IF exp = act THEN TRUE
    ELSE PrintT(<<"MISMATCH", l, tag, "expected", exp, "recorded", act>>) /\ FALSE
ChkIn(tag, set, act) ==
    IF act \in set THEN TRUE
    ELSE PrintT(<<"MISMATCH", l, tag, "expected one of", set, "recorded", act>>) /\ FALSE

-----------------------------------------------------------------------------
(* Kind translations of the languages the driver uses (0: raw API)         *)
Tr(lg, k)  == CASE lg = 0 -> k [] lg = 1 -> 65535 - k [] OTHER -> (k + 77) % 65536
Inv(lg, q) == CASE lg = 0 -> q [] lg = 1 -> 65535 - q [] OTHER -> (q + 65459) % 65536
RawKinds(lg, K) == { Inv(lg, K[i]) : i \in DOMAIN K }

PL(x, lg) == [Proj(S, x) EXCEPT !.k = Tr(lg, @)]
PLs(xs, lg) == MapSeq(xs, LAMBDA x : PL(x, lg))

Anything(S_, lg) == { [Proj(S_, x) EXCEPT !.k = Tr(lg, @)] : x \in DOMAIN S_ }

Same == UNCHANGED vars

-----------------------------------------------------------------------------
(* Queries *)
NavOps == <<"parent", "first_child", "last_child", "first_child_or_token",
            "last_child_or_token", "next_sibling", "prev_sibling",
            "next_sibling_or_token", "prev_sibling_or_token",
            "first_token", "last_token", "next_token", "prev_token">>
NavOps_K == <<"first_child_by_kind", "first_child_or_token_by_kind",
              "next_sibling_by_kind", "next_sibling_or_token_by_kind">>

\* e.rs: list of [op, K, r]
QNavs(e) == \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
    IN Chk(<<q.op, "of", PL(H[e.h], e.l)>>, PLs(Nav(S, H[e.h], q.op, RawKinds(e.l, q.K)), e.l), q.r)
QSeqs(e) == \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
    IN Chk(<<q.op, "of", PL(H[e.h], e.l)>>, PLs(SeqBy(S, H[e.h], q.op, RawKinds(e.l, q.K)), e.l), q.r)

QWalk(e) == LET w == Walk(S, H[e.h], e.tok)
            IN Chk(<<"walk", e.tok>>, MapSeq(w, LAMBDA v : <<v[1], PL(v[2], e.l)>>), e.r)

\* e.rs: all live handles: [h, m, o]
QObs(e) ==
    /\ Chk("live handles", Live, {e.rs[i].h : i \in DOMAIN e.rs})
    /\ \A i \in DOMAIN e.rs :
         LET q == e.rs[i] IN
         /\ Chk(<<"handle", q.h>>, PL(H[q.h], e.l), q.o)
         /\ q.t # <<-1>> => Chk(<<"text of handle", q.h>>, TextOf(S, H[q.h]), q.t)
         /\ q.m # -1 => Chk(<<"is_mutable of handle", q.h>>, S[H[q.h]].m, q.m)

QDump(e) == Chk("subtree", MapSeq(Flat(S, H[e.h]), LAMBDA f : [f EXCEPT !.k = Tr(e.l, @)]), e.o)
QTree(e) == Chk("green tree", Val(S, H[e.h]), e.o)
QGreens(e) ==
    /\ Chk("green slots", {g \in Slots : G[g] # None}, {e.rs[i].g : i \in DOMAIN e.rs})
    /\ \A i \in DOMAIN e.rs : Chk(<<"green slot", e.rs[i].g>>, G[e.rs[i].g][1], e.rs[i].o)

\* a refused call shows up as this instead of an element
Boom == [n |-> -9, k |-> 0, s |-> 0, e |-> 0, p |-> <<>>]

QTokAt(e) == LET sp == Spans(S, H[e.h]) IN \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
        r == PLs(TokAtIn(S, sp, q.o), e.l)
        b == <<Boom>>
    IN IF Start(S, H[e.h]) <= q.o /\ q.o <= End(S, H[e.h])
       THEN Chk(<<"token_at_offset", q.o>>,
                <<r, Final(r), First(r), [j \in 1..Len(r) |-> <<Len(r) + 1 - j, r[j]>>]>>,
                <<q.r, q.rb, q.lb, q.it>>)
       ELSE Chk(<<"token_at_offset outside", q.o>>, <<b, b, b>>, <<q.r, q.rb, q.lb>>)
QCover(e) == LET sp == Spans(S, H[e.h]) IN \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
        C == CoveringIn(S, sp, q.s, q.e)
    IN IF Covers(S, H[e.h], q.s, q.e)
       THEN ChkIn(<<"covering_element", q.s, q.e>>, {PL(x, e.l) : x \in C}, q.r)
       ELSE Chk(<<"covering_element outside", q.s, q.e>>, Boom, q.r)
QChildAt(e) == LET sp == Spans(S, H[e.h]) IN \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
        X == {PL(x, e.l) : x \in ChildAtIn(S, sp, H[e.h], q.s, q.e)}
    IN IF X = {} THEN Chk(<<"child_or_token_at_range", q.s, q.e>>, <<>>, q.r)
       ELSE ChkIn(<<"child_or_token_at_range", q.s, q.e>>, {<<x>> : x \in X}, q.r)

\* identity: e.rs: list of [i, j, eq, hq] over pairs of live handles
MayCoincide(x, y) == S[x].w = 0 /\ S[y].w = 0 /\ Start(S, x) = Start(S, y) /\ Val(S, x) = Val(S, y)
QEqs(e) == \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
        x == H[q.i]
        y == H[q.j]
    IN /\ x = y => Chk(<<"same element, handles", q.i, q.j>>, <<1, 1>>, <<q.eq, q.hq>>)
       /\ (x # y /\ RootOf(S, x) = RootOf(S, y) /\ ~MayCoincide(x, y)) =>
             Chk(<<"different elements, handles", q.i, q.j>>, 0, q.eq)
       /\ q.eq = 1 => Chk(<<"hash of equal handles", q.i, q.j>>, 1, q.hq)

\* pointers: made from handle f (and f2), resolved in the tree of handle h;
\* K, K2: the kinds two typed nodes accept
QPtr(e) ==
    LET x == H[e.f]
        y == H[e.f2]
        h == H[e.h]
        px == <<Tr(e.l, S[x].k), Start(S, x), End(S, x)>>
        py == <<Tr(e.l, S[y].k), Start(S, y), End(S, y)>>
        T == IF S[h].p # 0 THEN {} ELSE PtrTargetsIn(S, Spans(S, h), S[x].k, Start(S, x), End(S, x))
        \* what resolving may give: a node of that kind and range; the very
        \* node when it is the only one
        R == IF S[h].m = 1 THEN {<<Boom>>} ELSE IF T = {} THEN {<<>>} ELSE {<<PL(t, e.l)>> : t \in T}
        Rn == IF S[h].m = 1 \/ T = {} THEN {<<Boom>>} ELSE R
        a1 == px[1] \in Range(e.K)
        a2 == px[1] \in Range(e.K2)
    IN IF S[x].m = 1 THEN Chk("pointer into a mutable tree", "panic", e.st)
       ELSE /\ Chk("pointer into an immutable tree", "ok", e.st)
            /\ Chk("kind and range of a pointer", px, e.pk)
            /\ ChkIn("try_to_node", R, e.r)
            /\ ChkIn("to_node", Rn, e.rn)
            /\ e.rn # <<Boom>> => Chk("to_node and try_to_node", e.r, e.rn)
            /\ Chk("equality of pointers",
                   IF S[y].m = 1 THEN <<>> ELSE IF px = py THEN <<1, 1>> ELSE <<0>>,
                   IF S[y].m = 0 /\ px # py THEN <<e.eq[1]>> ELSE e.eq)
            /\ Chk("equality of typed pointers",
                   IF S[y].m = 1 \/ ~a1 \/ py[1] \notin Range(e.K) THEN <<>> ELSE IF px = py THEN <<1, 1>> ELSE <<0>>,
                   IF S[y].m = 0 /\ px # py /\ e.teq # <<>> THEN <<e.teq[1]>> ELSE e.teq)
            /\ Chk("casts", IF a1 THEN <<1, B01(a2)>> ELSE <<0>>, e.casts)
            /\ Chk("typed pointers", IF a1 THEN <<<<e.r, e.rn, 1>>, <<e.r, e.rn, 1>>>> ELSE <<>>, e.tr)

\* the typed layer; K: the kinds the typed node accepts
QAst(e) ==
    LET x == H[e.h]
        ks == PLs(OfKinds(S, NodesOf(S, S[x].c), RawKinds(e.l, e.K)), e.l)
        ts == PLs(OfKinds(S, ToksOf(S, S[x].c), {Inv(e.l, e.k)}), e.l)
    IN /\ Chk("support::child", First(ks), e.child)
       /\ Chk("support::children", ks, e.kids)
       /\ Chk("clone of support::children", SubSeq(ks, e.at + 1, Len(ks)), e.rest)
       /\ Chk("support::token", First(ts), e.tok)
       /\ Chk("cast", IF S[x].k \in RawKinds(e.l, e.K) THEN <<PL(x, e.l)>> ELSE <<>>, e.cast)

\* text views
QText(e) ==
    LET v == View(TextOf(S, H[e.h]), e.qs)
        t == v[1]
        n == Len(e.chunks)
    IN IF v = None THEN Chk("slice outside a view", "panic", e.st)
       ELSE /\ Chk("slice", "ok", e.st)
            /\ Chk("len, is_empty", <<BLen(t), B01(t = <<>>)>>, <<e.len, e.emp>>)
            /\ Chk("strings", <<t, t, t, Quote(t)>>, <<e.str, e.fmt, e.into, e.dbg>>)
            /\ Chk("chunks", t, Cat(e.chunks))
            /\ Chk("try_for_each_chunk", e.chunks, e.tried)
            /\ Chk("try_fold_chunks",
                   <<IF e.stop < n THEN <<0, e.stop>> ELSE <<1, n>>, SubSeq(e.chunks, 1, MinOf(n, e.stop))>>,
                   <<e.fold, e.part>>)
            /\ \A i \in DOMAIN e.find : Chk(<<"find_char", e.find[i][1]>>, Find(t, e.find[i][1]), e.find[i][2])
            /\ \A i \in DOMAIN e.has :
                 Chk(<<"contains_char", e.has[i][1]>>, <<B01(HasChar(t, e.has[i][1]))>>, e.has[i][2])
            /\ \A i \in DOMAIN e.at : \* offsets on boundaries and beyond the end
                 IsBound(t, e.at[i][1]) \/ e.at[i][1] >= BLen(t) =>
                    Chk(<<"char_at", e.at[i][1]>>, CharAt(t, e.at[i][1]), e.at[i][2])
            /\ \A i \in DOMAIN e.cmp :
                 LET b == B01(t = e.cmp[i][1])
                 IN Chk(<<"comparison with", e.cmp[i][1]>>, <<b, b, b, b>>, e.cmp[i][2])
QTextCmp(e) ==
    LET b == B01(View(TextOf(S, H[e.h]), e.qs) = View(TextOf(S, H[e.h2]), e.qs2))
    IN Chk("comparison of views", <<b, b>>, e.r)

\* formatting
QFmt(e) ==
    LET x == H[e.h]
        f == [Proj(S, x) EXCEPT !.k = Tr(e.l, @)]
        d == DebugEl(e.l, f.k, f.n, f.s, f.e, S[x].t)
    IN /\ Chk("Display", <<TextOf(S, x), TextOf(S, x)>>, <<e.disp, e.eldisp>>)
       /\ Chk("Debug", IF e.l = 0 /\ f.n = 0 THEN <<>> ELSE d, e.dbg)
       /\ Chk("pretty Debug", IF e.l = 0 THEN <<>> ELSE IF f.n = 0 THEN d
                              ELSE PrettyEl(S, x, e.l, LAMBDA k : Tr(e.l, k)), e.pretty)
QSer(e) == /\ Chk("serialised", SerEl(S, H[e.h], e.l, LAMBDA k : Tr(e.l, k)), e.o)
           /\ Chk("serialised otherwise", e.o, e.vo)
           \* a length that is announced is the length
           /\ Chk(<<"announced and actual lengths", e.lens>>, TRUE,
                  Len(e.lens) > 0 /\ \A i \in DOMAIN e.lens : e.lens[i][1] \in {-1, e.lens[i][2]})
           \* and what was refused is not reported as done
           /\ Chk(<<"refused, done", e.st>>, TRUE, e.st \in {<<0, 1>>, <<1, 0>>})
Whole(e) ==
    CASE e.f = "green" -> GText(G[e.g][1])
      [] e.f = "ser" -> e.w
      [] e.f \in {"disp", "eldisp", "text"} -> TextOf(S, H[e.h])
      [] OTHER -> LET f == [Proj(S, H[e.h]) EXCEPT !.k = Tr(e.l, @)]
                  IN IF e.f = "pretty" /\ f.n = 1 THEN PrettyEl(S, H[e.h], e.l, LAMBDA k : Tr(e.l, k))
                     ELSE DebugEl(e.l, f.k, f.n, f.s, f.e, S[H[e.h]].t)
QSink(e) == LET w == Whole(e)
            IN Chk(<<"form", e.f, w, "to a writer of", e.cap, "bytes, refusing call", e.call, "gave", e.st, e.o>>, TRUE,
                   Written(w, e.cap, e.call, e.rf, e.st, e.o))
\* operations during which client code is called: the elements they give, and
\* what they write or give to a closure
CallEls(e) == LET K == RawKinds(e.l, e.K)
              IN CASE e.op \in Range(NavOps_K) -> Nav(S, H[e.h], e.op, K)
                   [] e.op \in {"children_by_kind", "children_with_tokens_by_kind"} -> SeqBy(S, H[e.h], e.op, K)
                   [] e.op = "ast_child" -> First(SeqBy(S, H[e.h], "children_by_kind", K))
                   [] e.op = "ast_children" -> SeqBy(S, H[e.h], "children_by_kind", K)
                   [] OTHER -> <<>>
CallKnown(e) == e.op \notin {"dbg", "pretty"} \/ e.l # 0 \/ (e.op = "dbg" /\ S[H[e.h]].n = 1)
CallText(e) == CASE e.op \in {"dbg", "pretty", "disp"} -> Whole([f |-> e.op, h |-> e.h, l |-> e.l])
                 [] e.op = "ser" -> e.z
                 [] e.op \in {"chunks", "find"} /\ S[H[e.h]].n = 1 -> TextOf(S, H[e.h])
                 [] OTHER -> <<>>
QCalled(e) == /\ Chk(e.op, PLs(CallEls(e), e.l), e.rs)
              /\ CallKnown(e) => Chk(<<e.op, "gave">>, CallText(e), e.w)
QGFmt(e) == LET g == G[e.g][1]
                q == <<g.k, GLen(g)>>
            IN /\ Chk("green formatting", <<GText(g), GText(g), GDebug(g), GDebug(g), GLen(g)>>,
                      <<e.disp, e.ddisp, e.dbg, e.ddbg, e.len>>)
               /\ Chk("green element, owned and borrowed", <<q, q, q, q, q, <<1, 1>>>>, e.el)
QGEqs(e) == \A i \in DOMAIN e.rs :
    LET q == e.rs[i]
    IN /\ Chk(<<"equality of green slots", q.i, q.j>>, B01(G[q.i] = G[q.j]), q.eq)
       /\ q.eq = 1 => Chk(<<"hash of equal green slots", q.i, q.j>>, 1, q.hq)

\* green children from both ends
RECURSIVE GKids(_, _)
GKids(c, steps) ==
    IF steps = <<>> THEN [rs |-> <<>>, c |-> c]
    ELSE LET q == Head(steps)
             k == IF q = 0 THEN 0 ELSE IF q = 1 THEN 0 ELSE IF q < 100 THEN q - 10 ELSE q - 100
             front == q = 0 \/ (q >= 10 /\ q < 100)
             r == IF k >= Len(c) THEN <<>> ELSE IF front THEN <<c[k + 1]>> ELSE <<c[Len(c) - k]>>
             c1 == IF k >= Len(c) THEN <<>> ELSE IF front THEN SubSeq(c, k + 2, Len(c)) ELSE SubSeq(c, 1, Len(c) - k - 1)
             rest == GKids(c1, Tail(steps))
         IN [rs |-> <<<<r, Len(c1)>>>> \o rest.rs, c |-> rest.c]
QGKids(e) ==
    LET r == GKids(G[e.g][1].c, e.steps)
    IN Chk("green children", <<r.rs, Len(r.c), Final(r.c), r.c, Reverse(r.c)>>,
           <<e.rs, e.count, e.last, e.fwd, e.back>>)

\* calls on green elements that have to be refused
LieOk(e) == e.ann = Len(e.xs)
GBadOk(e) == LET n == Len(G[e.g][1].c)
             IN CASE e.op = "insert_child" -> e.lo <= n
                  [] e.op = "remove_child" -> e.lo < n
                  [] OTHER -> e.lo <= e.hi /\ e.hi <= n

-----------------------------------------------------------------------------
Ok(e, b) == Chk("outcome", IF b THEN "ok" ELSE "panic", e.st)

TStep(e) ==
    CASE e.a = "reset" ->
           /\ S' = NoStore /\ H' = [h \in Handles |-> 0]
           /\ G' = [g \in Slots |-> None] /\ It' = [i \in Iters |-> NoIter]
      [] e.a = "note" -> Same
      \* 2^n - 1 more handles that are never given up: either they can all be counted, or the process ends
      [] e.a = "flood" -> Same
      [] e.a = "ended" -> Same /\ Chk("the process is ended only when there are very many handles", TRUE, e.n > 30)
      [] e.a = "green" -> MakeGreen(e.d, e.g) /\ Chk("green tree", e.g, e.o)
      [] e.a = "root" -> /\ NewRoot(e.g, e.d, e.m)
                         /\ Chk("new root", [Proj(S', H'[e.d]) EXCEPT !.k = Tr(e.l, @)], e.o)
      [] e.a = "step" -> /\ Step(e.h, e.op, RawKinds(e.l, e.K), e.d)
                         /\ Chk(e.op, PLs(Nav(S, H[e.h], e.op, RawKinds(e.l, e.K)), e.l), e.r)
      [] e.a = "stepc" -> /\ StepConsume(e.h, e.op, RawKinds(e.l, e.K), e.d)
                          /\ Chk(e.op, PLs(Nav(S, H[e.h], e.op, RawKinds(e.l, e.K)), e.l), e.r)
      [] e.a = "goto" -> LET x == AtPath(S, H[e.h], e.p)
                         IN /\ Keep(e.d, <<x>>) /\ UNCHANGED <<S, G, It>>
                            /\ Chk("element at path", <<PL(x, e.l)>>, e.r)
      [] e.a = "drop" -> Drop(e.h)
      [] e.a = "dropg" -> DropGreen(e.g)
      [] e.a = "cfu" -> /\ Ok(e, S[H[e.h]].m = 0)
                        /\ IF S[H[e.h]].m = 0 THEN DoCloneForUpdate(e.h, e.d) ELSE Same
      [] e.a = "csub" -> Ok(e, TRUE) /\ DoCloneSubtree(e.h, e.d)
      [] e.a = "snap" -> Snapshot(e.h, e.d) /\ Chk("snapshot", G'[e.d][1], e.o)
      [] e.a = "hold" -> Snapshot(e.h, e.d) /\ Chk("green tree lent by a handle", G'[e.d][1], e.o)
      [] e.a = "unhold" -> DropGreen(e.g)
      [] e.a = "detach" -> Ok(e, MayEdit(e.h)) /\ DoDetach(e.h)
      [] e.a = "splice" -> /\ Ok(e, SpliceOk(e.h, e.lo, e.hi, e.ins))
                           /\ DoSplice(e.h, e.lo, e.hi, e.ins)
      [] e.a = "move" ->
           LET xs == MoveSeq(e.from, e.op, RawKinds(e.l, e.K), e.n)
               asks == MoveAsks(e.from, e.op, RawKinds(e.l, e.K), e.n)
               more == e.kids - Len(S[H[e.h]].c)
               done == SubSeq(xs, 1, more)
           IN IF e.did = 0
              THEN /\ Chk("a panic of the iterator", FALSE, asks /\ MoveDone(e.h, e.lo, e.hi, xs).ok)
                   /\ Ok(e, MoveDone(e.h, e.lo, e.hi, xs).ok)
                   /\ DoMove(e.h, e.lo, e.hi, xs)
              ELSE /\ Ok(e, FALSE)
                   /\ Chk("a panic of the iterator", TRUE, asks)
                   /\ ChkIn("children inserted before the panic", 0..Len(xs), more)
                   /\ IF more = 0 THEN Same
                      ELSE /\ Chk("insertions", TRUE, MoveDone(e.h, e.lo, e.hi, done).ok)
                           /\ DoMove(e.h, e.lo, e.hi, done)
      \* client code that the library calls panics: so does the call, and nothing else happens
      [] e.a = "boom" -> /\ Ok(e, e.did = 0) /\ Same
                         /\ e.h # 0 => IF e.did = 0 THEN QCalled(e)
                                       ELSE CallKnown(e) => Chk(<<"begin of", CallText(e)>>, SubSeq(CallText(e), 1, Len(e.w)), e.w)
      [] e.a = "loop" -> /\ Chk("visited", PLs(SeqBy(S, H[e.h], e.op, RawKinds(e.l, e.K)), e.l), e.r)
                         /\ DoLoop(e.h, e.op, RawKinds(e.l, e.K), e.mask)
      [] e.a = "repl" -> /\ Ok(e, S[H[e.h]].k = G[e.g][1].k)
                         /\ IF S[H[e.h]].k = G[e.g][1].k
                            THEN /\ DoReplace(e.h, e.g, e.d)
                                 /\ Chk("replaced tree", G'[e.d][1], e.o)
                                 /\ Chk("children next to the path are shared", 1, e.sh)
                            ELSE Same
      \* green edits: e.op, on slot g with children lo..hi-1 and arguments xs
      [] e.a = "gedit" ->
           LET r == GSplice(G[e.g][1], e.lo, e.hi, MapSeq(e.xs, LAMBDA q : G[q][1]))
           IN /\ MakeGreen(e.d, r)
              /\ Chk(e.op, r, e.o)
              /\ Chk(<<"sharing of children after", e.op>>, SpliceSeq(e.sa, e.lo, e.hi, e.xa), e.ra)
      [] e.a = "it" -> ItNew(e.i, e.h, e.op, RawKinds(e.l, e.K))
      [] e.a = "itn" -> ItNext(e.i, e.d) /\ Chk("iterator", PLs(First(It[e.i].rem), e.l), e.r)
      [] e.a = "itx" ->
           LET rem == It[e.i].rem
           IN /\ ItAdapt(e.i, e.op, e.n, e.d)
              /\ CASE e.op = "hint"  -> Chk(<<"size_hint", e.r, Len(rem)>>, TRUE, e.r[1] <= Len(rem) /\ Len(rem) <= e.r[2])
                   [] e.op = "count" -> Chk("count", <<Len(rem)>>, e.r)
                   [] OTHER -> Chk(e.op, PLs(ItAnswer(e.i, e.op, e.n), e.l), e.r)
      \* after an edit iterators give something that is there
      [] e.a = "its" -> /\ \A i \in DOMAIN e.rs : ChkIn("iterator over an edited tree", Anything(S, e.l), e.rs[i])
                        /\ Same
      \* client code that the library calls does something else besides
      [] e.a = "aside" ->
           /\ DoAside(e.act, e.vic, e.to, e.at, e.did = 1)
           /\ IF e.did = 1 /\ e.act \in {"detach", "splice"}
              THEN e.op \notin {"chunks", "find", "disp", "dbg", "pretty", "ser"} =>
                   \A i \in DOMAIN e.rs : ChkIn(<<e.op, "while editing">>, Anything(S', e.l), e.rs[i])
              ELSE QCalled(e)
      [] e.a = "itc" -> ItClone(e.i, e.j)
      [] e.a = "itk" -> ItByKind(e.i, RawKinds(e.l, e.K))
      [] e.a = "itd" -> ItDrop(e.i)
      [] e.a = "walk" -> WalkNew(e.i, e.h, e.tok)
      [] e.a = "walkn" ->
           LET r == WalkResult(It[e.i])
           IN /\ DoWalkNext(e.i, e.d)
              /\ Chk("walk event", IF r = None THEN <<>> ELSE <<<<r[1][1], PL(r[1][2], e.l)>>>>, e.r)
      [] e.a = "walks" -> WalkSkip(e.i)
      [] e.a = "navs" -> QNavs(e) /\ Same
      [] e.a = "seqs" -> QSeqs(e) /\ Same
      [] e.a = "wholewalk" -> QWalk(e) /\ Same
      [] e.a = "obs" -> QObs(e) /\ Same
      [] e.a = "dump" -> QDump(e) /\ Same
      [] e.a = "tree" -> QTree(e) /\ Same
      [] e.a = "greens" -> QGreens(e) /\ Same
      [] e.a = "tokat" -> QTokAt(e) /\ Same
      [] e.a = "cover" -> QCover(e) /\ Same
      [] e.a = "childat" -> QChildAt(e) /\ Same
      [] e.a = "eqs" -> QEqs(e) /\ Same
      [] e.a = "ptr" -> QPtr(e) /\ Same
      [] e.a = "ast" -> QAst(e) /\ Same
      [] e.a = "acfu" -> /\ Ok(e, S[H[e.h]].m = 0)
                         /\ IF S[H[e.h]].m = 0 THEN DoCloneForUpdate(e.h, e.d) ELSE Same
      [] e.a = "acsub" -> Ok(e, TRUE) /\ DoCloneSubtree(e.h, e.d)
      [] e.a = "text" -> QText(e) /\ Same
      [] e.a = "textcmp" -> QTextCmp(e) /\ Same
      [] e.a = "fmt" -> QFmt(e) /\ Same
      [] e.a = "ser" -> QSer(e) /\ Same
      [] e.a = "sink" -> QSink(e) /\ Same
      [] e.a = "gfmt" -> QGFmt(e) /\ Same
      [] e.a = "geqs" -> QGEqs(e) /\ Same
      [] e.a = "gkids" -> QGKids(e) /\ Same
      [] e.a = "lie" -> Ok(e, LieOk(e)) /\ Same
      [] e.a = "gbad" -> Ok(e, GBadOk(e)) /\ Same
      [] OTHER -> PrintT(<<"UNKNOWN EVENT", e.a>>) /\ FALSE

TNext == l <= Len(Trace) /\ TStep(Trace[l]) /\ l' = l + 1

TH == 1..20
\* 1..10 own green trees, 11..13 what a handle lends
TG == 1..13
TI == 1..6

TSpec == TInit /\ [][TNext]_<<vars, l>>

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
