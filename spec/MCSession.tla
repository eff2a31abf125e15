------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* Session in small scope: every small tree, every set of live handles,    *)
(* every sequence of up to DEPTH operations.  TLC checks laws about what   *)
(* the operations do that do not repeat their definitions, and prints      *)
(* every transition as a scenario (the operations that lead to it, and it) *)
(* for the driver to perform on the real library.                          *)
(*                                                                         *)
(* MODE "edit": one mutable tree and a loose mutable one, edits.           *)
(* MODE "copy": one immutable tree, copies of all kinds, edits.            *)
(* ASIDE: in either of them, the last operation is one in the middle of    *)
(* which the library calls client code.                                    *)
(***************************************************************************)
EXTENDS Session, Small, TLC, Json, IOUtils

VARIABLE hist

mvars == <<S, H, G, It, hist>>

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
SIZE  == Env("SIZE", 3)       \* elements of the main tree
DEPTH == Env("DEPTH", 1)      \* operations after the start
INS   == Env("INS", 2)        \* elements inserted at once
EMIT  == Env("EMIT", 0)       \* 1: print scenarios
COPY  == Env("COPY", 0)       \* 1: mode "copy"
ASIDE == Env("ASIDE", 0)      \* 1: the last operation calls client code, which panics, edits, ...

MH == 1..9
MG == 1..4
MI == {1}

Loose == GNode(9, <<GTok(9, <<120>>)>>)

\* start: tree t in handle 1 (and the loose tree in handle 2), then handles
\* to the elements of a set of paths; the handles of the two roots are
\* given up again when the roots are not in the set
PathsOf(g) == LET P == Plant(NoStore, g, 0).s IN { Path(P, x) : x \in DOMAIN P }

RECURSIVE ToSeqBy(_)
ToSeqBy(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o ToSeqBy(X \ {x})

Cmd(a) == [a |-> a, l |-> 0, v |-> 0]

StartHist(t, P, Q) ==
    LET ps == ToSeqBy(P \ {<<>>})
        qs == ToSeqBy(Q \ {<<>>})
        mut == IF COPY = 1 THEN 0 ELSE 1
        goto(h, p, d) == [a |-> "goto", h |-> h, p |-> p, m |-> d % 3, d |-> d, l |-> 0, v |-> 0]
    IN << [a |-> "green", d |-> 1, g |-> t, m |-> 0],
          [a |-> "root", g |-> 1, d |-> 1, m |-> mut, l |-> 0, v |-> 0],
          [a |-> "green", d |-> 2, g |-> Loose, m |-> 0],
          [a |-> "root", g |-> 2, d |-> 2, m |-> 1, l |-> 0, v |-> 0],
          [a |-> "dropg", g |-> 2] >>
       \o [i \in 1..Len(ps) |-> goto(1, ps[i], 2 + i)]
       \o [i \in 1..Len(qs) |-> goto(2, qs[i], 2 + Len(ps) + i)]
       \o (IF <<>> \in P THEN <<>> ELSE <<[a |-> "drop", h |-> 1]>>)
       \o (IF <<>> \in Q THEN <<>> ELSE <<[a |-> "drop", h |-> 2]>>)

MInit ==
    \E t \in Trees(SIZE, {LeafA}, {1}) :
    \E P \in SUBSET PathsOf(t) :
    \E Q \in (IF COPY = 1 THEN {{}, {<<>>}} ELSE {{}, {<<>>}, {<<0>>}, {<<>>, <<0>>}}) :
        LET f1 == Plant(NoStore, t, IF COPY = 1 THEN 0 ELSE 1)
            f2 == Plant(f1.s, Loose, 1)
            ps == ToSeqBy(P \ {<<>>})
            qs == ToSeqBy(Q \ {<<>>})
        IN /\ P # {} \/ Q # {}
           /\ S = f2.s
           /\ G = [g \in MG |-> IF g = 1 THEN Some(t) ELSE None]
           /\ It = [i \in MI |-> NoIter]
           /\ H = [h \in MH |->
                     IF h = 1 THEN (IF <<>> \in P THEN f1.r ELSE 0)
                     ELSE IF h = 2 THEN (IF <<>> \in Q THEN f2.r ELSE 0)
                     ELSE IF h - 2 <= Len(ps) THEN AtPath(S, f1.r, ps[h - 2])
                     ELSE IF h - 2 - Len(ps) <= Len(qs) THEN AtPath(S, f2.r, qs[h - 2 - Len(ps)])
                     ELSE 0]
           /\ hist = StartHist(t, P, Q)

Add(c) == hist' = Append(hist, c)
FreeH == CHOOSE h \in MH : H[h] = 0 /\ \A k \in MH : H[k] = 0 => h <= k
FreeG == CHOOSE g \in MG : G[g] = None /\ \A k \in MG : G[k] = None => g <= k
HasH == \E h \in MH : H[h] = 0
HasG == \E g \in MG : G[g] = None

Used == { h \in MH : H[h] # 0 }
SeqsUpTo(A, n) == UNION { [1..i -> A] : i \in 0..n }

ADetach(h) == DoDetach(h) /\ Add([a |-> "detach", h |-> h, l |-> 0, v |-> h % 2])
ASplice(h, lo, hi, ins) ==
    /\ DoSplice(h, lo, hi, ins)
    /\ Add([a |-> "splice", h |-> h, lo |-> lo, hi |-> hi, ins |-> ins, l |-> 0, v |-> 0])
ALoop(h) ==
    /\ DoLoop(h, "children_with_tokens", {}, [i \in 1..9 |-> 1])
    /\ Add([a |-> "loop", h |-> h, op |-> "children_with_tokens", K |-> <<>>,
            mask |-> [i \in 1..9 |-> 1], keep |-> h % 2, l |-> 0, v |-> 0])
ADrop(h) == Drop(h) /\ Cardinality(Used) > 1 /\ Add([a |-> "drop", h |-> h])
AStep(h, op) ==
    /\ HasH
    /\ Nav(S, H[h], op, {}) # None
    /\ Step(h, op, {}, FreeH)
    /\ Add([a |-> "step", h |-> h, op |-> op, K |-> <<>>, d |-> FreeH, l |-> 0, v |-> 0])
ACfu(h) == /\ HasH /\ S[H[h]].m = 0
           /\ DoCloneForUpdate(h, FreeH) /\ Add([a |-> "cfu", h |-> h, d |-> FreeH, l |-> 0])
ACsub(h) == /\ HasH /\ DoCloneSubtree(h, FreeH) /\ Add([a |-> "csub", h |-> h, d |-> FreeH, l |-> 0])
ASnap(h) == /\ HasG /\ Snapshot(h, FreeG) /\ Add([a |-> "snap", h |-> h, d |-> FreeG, l |-> 0])
ARoot(g, m) == /\ HasH /\ NewRoot(g, FreeH, m)
               /\ Add([a |-> "root", g |-> g, d |-> FreeH, m |-> m, l |-> 0, v |-> 0])

Below(h) == S[H[h]].n = 1
MayCh(x) == S[H[x]].m = 1

\* <<-1>>: all kinds
AskOps == {"first_child_by_kind", "first_child_or_token_by_kind", "next_sibling_by_kind",
           "next_sibling_or_token_by_kind", "children_by_kind", "children_with_tokens_by_kind"}
CallOps == {"chunks", "disp", "pretty", "ser", "ast_children"}
\* the handle they start from is not needed any more
OwnOps == {"children_by_kind", "children_with_tokens_by_kind", "chunks", "ast_children"}
Calls == { <<op, K>> : op \in AskOps, K \in {<<>>, <<-1>>} } \cup { <<op, IF op = "ast_children" THEN <<-1>> ELSE <<>>>> : op \in CallOps }

\* the n-th call of client code while op runs on h does something besides
AAside(h, q, n, act, vic, to, at) ==
    /\ DoAside(act, vic, to, at, TRUE)
    /\ Add([a |-> "aside", h |-> h, act |-> act, vic |-> vic, to |-> to, at |-> at, op |-> q[1], K |-> q[2], n |-> n,
            l |-> 0, v |-> 0])
\* ... or panics
ABoom(h, q, n) ==
    /\ UNCHANGED vars
    /\ Add([a |-> "boom", op |-> q[1], n |-> n, K |-> q[2], lo |-> 0, hi |-> 0, xs |-> <<>>, h |-> h, g |-> 0,
            l |-> 0, v |-> 0])
\* children of another node are inserted as an iterator gives them, which panics when asked for the n-th
AMove(h, lo, hi, from, n) ==
    /\ H[from] # H[h]
    /\ n > 0 => lo = hi
    /\ DoMove(h, lo, hi, MoveSeq(from, "children_with_tokens", {}, n))
    /\ Add([a |-> "move", h |-> h, lo |-> lo, hi |-> hi, from |-> from, op |-> "children_with_tokens", K |-> <<>>,
            n |-> n, l |-> 0, v |-> 0])

Called ==
    \/ \E h \in Used : Below(h) /\ \E q \in Calls : \E n \in 1..(IF q[1] \in CallOps \ {"ast_children"} THEN 4 ELSE 2) :
          \/ ABoom(h, q, n)
          \/ \E vic \in Used : (vic # h \/ q[1] \in OwnOps) /\ AAside(h, q, n, "drop", vic, 0, 0)
          \/ \E act \in {"walk", "fmt"} : AAside(h, q, n, act, h, 0, 0)
          \/ /\ MayCh(h)
             /\ \/ \E vic \in Used : MayCh(vic) /\ AAside(h, q, n, "detach", vic, 0, 0)
                \/ \E vic, to \in Used :
                      /\ MayCh(vic) /\ MayCh(to) /\ Below(to)
                      /\ H[vic] # H[to] /\ ~IsBelow(S, H[to], H[vic])
                      /\ \E at \in 0..(IF S[H[to]].c = <<>> THEN 0 ELSE Len(S[H[to]].c) - 1) :
                            AAside(h, q, n, "splice", vic, to, at)
    \/ \E h, from \in Used :
          /\ MayCh(h) /\ Below(h) /\ Below(from)
          /\ \E lo \in 0..Len(S[H[h]].c) : \E hi \in lo..Len(S[H[h]].c) :
                \E n \in 0..Len(S[H[from]].c) + 1 : AMove(h, lo, hi, from, n)

MNext == IF ASIDE = 1 /\ TLCGet("level") = DEPTH THEN Called ELSE
    /\ \/ \E h \in Used : S[H[h]].m = 1 /\ ADetach(h)
       \/ \E h \in Used : /\ Below(h) /\ S[H[h]].m = 1
             /\ \E lo \in 0..Len(S[H[h]].c) : \E hi \in lo..Len(S[H[h]].c) :
                  \E ins \in SeqsUpTo({ k \in Used : S[H[k]].m = 1 }, INS) :
                     ASplice(h, lo, hi, ins)
       \/ \E h \in Used : Below(h) /\ S[H[h]].m = 1 /\ ALoop(h)
       \/ \E h \in Used : DEPTH > 1 /\ ADrop(h)
       \/ \E h \in Used : DEPTH > 1 /\ \E op \in (IF Below(h) THEN {"parent", "first_child_or_token", "last_child_or_token",
                                      "next_sibling_or_token", "prev_sibling_or_token"}
                                 ELSE {"parent", "next_sibling_or_token", "prev_sibling_or_token"}) : AStep(h, op)
       \/ /\ COPY = 1
          /\ \/ \E h \in Used : Below(h) /\ (ACfu(h) \/ ACsub(h))
             \/ \E h \in Used : ASnap(h)
             \/ \E g \in MG, m \in {0, 1} : G[g] # None /\ G[g][1].n = 1 /\ ARoot(g, m)

MSpec == MInit /\ [][MNext]_mvars

View == <<S, H, G>>

Depth == TLCGet("level") <= DEPTH
\* every transition, as a scenario
EmitScen == [][ EMIT = 1 => PrintT("SCEN " \o ToJson(hist')) ]_mvars

-----------------------------------------------------------------------------
(* Laws *)
Inv_Forest == WellFormed(S)

Roots == { x \in DOMAIN S : S[x].p = 0 }
Inv_Place == \A x \in DOMAIN S :
    LET r == RootOf(S, x)
    IN /\ r \in Roots
       /\ AtPath(S, r, Path(S, x)) = x
       /\ Slice(TextOf(S, r), Start(S, x), End(S, x)) = GText(Val(S, x))
       /\ \A i \in 1..Len(S[x].c) - 1 : End(S, S[x].c[i]) = Start(S, S[x].c[i + 1])


Op == hist'[Len(hist')]

\* nothing ever changes in immutable trees, no element changes what it is
Prop_Immutable == [][ \A x \in DOMAIN S :
    /\ S[x].m = 0 => S'[x] = S[x]
    /\ S'[x].n = S[x].n /\ S'[x].k = S[x].k /\ S'[x].t = S[x].t /\ S'[x].m = S[x].m ]_mvars
Prop_Snapshots == [][ \A g \in MG : G[g] # None => G'[g] = G[g] ]_mvars
\* handles move only when assigned
Prop_Handles == [][ \A h \in MH : H[h] # 0 => H'[h] \in {H[h], 0} ]_mvars
\* edits stay within the trees of the elements named
Prop_Frame == [][ Op.a \in {"detach", "splice", "loop"} =>
    LET named == { RootOf(S, H[h]) : h \in {Op.h} \cup (IF Op.a = "splice" THEN Range(Op.ins) ELSE {}) }
    IN \A x \in DOMAIN S : RootOf(S, x) \notin named => S'[x] = S[x] ]_mvars
Prop_Detach == [][ Op.a = "detach" =>
    LET x == H[Op.h]
        p == S[x].p
        old == TextOf(S, RootOf(S, x))
    IN /\ S'[x].p = 0 /\ Val(S', x) = Val(S, x)
       /\ \A y \in DOMAIN S : y # p => S'[y].c = S[y].c
       /\ \A y \in DOMAIN S : y # x => S'[y].p = S[y].p
       /\ p # 0 => /\ S'[p].c = GSplice(S[p], Index(S, x), Index(S, x) + 1, <<>>).c
                   /\ TextOf(S', RootOf(S, x)) = Slice(old, 0, Start(S, x)) \o Slice(old, End(S, x), BLen(old)) ]_mvars
\* splicing elements from elsewhere: the children are exactly the spliced
\* list, the deleted ones are roots
Prop_Splice == [][ Op.a = "splice" =>
    LET n == H[Op.h]
        ins == MapSeq(Op.ins, LAMBDA h : H[h])
        fresh == /\ \A i, j \in DOMAIN ins : i # j => ins[i] # ins[j]
                 /\ \A i \in DOMAIN ins : S[ins[i]].p # n /\ ~IsBelow(S, n, ins[i])
                                          /\ \A j \in DOMAIN ins : ~(i # j /\ IsBelow(S, ins[i], ins[j]))
        gone == { S[n].c[i] : i \in Op.lo + 1..Op.hi } \ Range(ins)
    IN /\ fresh => /\ Splice(S, n, Op.lo, Op.hi, ins).ok
                   /\ S'[n].c = SpliceSeq(S[n].c, Op.lo, Op.hi, ins)
                   /\ \A x \in Range(ins) : S'[x].p = n
       \* also when some were children already
       /\ \A x \in gone : S'[x].p = 0
       /\ Cardinality(Range(S'[n].c)) = Len(S'[n].c)
       /\ \A x \in DOMAIN S : x \notin gone /\ x \notin Range(ins) => S'[x].p = S[x].p ]_mvars
\* client code in the middle of an operation: what it does, and nothing else
Prop_Called == [][
    /\ Op.a = "boom" => S' = S /\ H' = H /\ G' = G
    /\ Op.a = "aside" =>
         /\ Op.act \in {"detach", "splice"} => H' = H /\ \A x \in DOMAIN S : x # H[Op.vic] => S'[x].p = S[x].p
         /\ Op.act \in {"drop", "walk", "fmt"} => S' = S /\ \A h \in MH : H'[h] = IF Op.act = "drop" /\ h = Op.vic THEN 0 ELSE H[h]
    /\ Op.a = "move" =>
         LET n == H[Op.h]
             f == H[Op.from]
             k == IF Op.n = 0 THEN Len(S[f].c) ELSE Op.n - 1
             gone == { S[n].c[i] : i \in Op.lo + 1..Op.hi }
         IN (S[f].m = 1 /\ S[n].p # f /\ f \notin gone /\ ~IsBelow(S, n, f) /\ ~(\E x \in gone : IsBelow(S, f, x))) =>
              /\ S'[f].c = SubSeq(S[f].c, k + 1, Len(S[f].c))
              /\ S'[n].c = SpliceSeq(S[n].c, Op.lo, Op.hi, SubSeq(S[f].c, 1, k)) ]_mvars
Prop_Loop == [][ Op.a = "loop" => S'[H[Op.h]].c = <<>> ]_mvars
\* copies are equal at birth, in place, and separate
Prop_Copies == [][
    /\ Op.a = "cfu" => /\ Proj(S', H'[Op.d]) = Proj(S, H[Op.h]) /\ S'[H'[Op.d]].m = 1
                       /\ Val(S', RootOf(S', H'[Op.d])) = Val(S, RootOf(S, H[Op.h]))
    /\ Op.a = "csub" => /\ S'[H'[Op.d]].p = 0 /\ S'[H'[Op.d]].m = 0
                        /\ Val(S', H'[Op.d]) = Val(S, H[Op.h])
    /\ Op.a \in {"cfu", "csub", "root"} => RootOf(S', H'[Op.d]) \notin DOMAIN S /\ \A x \in DOMAIN S : S'[x] = S[x]
    /\ Op.a = "snap" => G'[Op.d] = <<Val(S, H[Op.h])>> ]_mvars
=============================================================================
