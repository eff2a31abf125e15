----------------------------- MODULE MCCursors -----------------------------
(***************************************************************************)
(* The cursor layer as it is built (Cursors) against what clients are      *)
(* promised (Forest): every history of up to DEPTH operations on small     *)
(* trees, with up to HANDLES handles that come and go between them. The    *)
(* abstract state S with the elements EL that the handles denote is        *)
(* carried along; the laws say that the cursors show exactly that, that    *)
(* counts are right, and that nothing is used after its release or kept    *)
(* for nothing. Every history is printed for the driver.                   *)
(***************************************************************************)
EXTENDS Cursors, Small, TLC, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
SIZE    == Env("SIZE", 3)
DEPTH   == Env("DEPTH", 4)
HANDLES == Env("HANDLES", 3)
COPY    == Env("COPY", 0)
ITER    == Env("ITER", 0)
EMIT    == Env("EMIT", 0)
Weak    == IF "WEAK" \in DOMAIN IOEnv THEN IOEnv.WEAK ELSE ""

VARIABLES hp,   \* heap
          C,    \* handle -> cursor, 0 when free
          GS,   \* green slot -> green object, 0 when free
          S, EL, \* elements, and handle -> element
          GV,   \* green slot -> green value
          it,   \* a child iterator
          IE,   \* [p, x: elements that it.par and it.nx denote; want: the children it has yet to give;
                \*  gave: those it has given; pure: every edit since it began detached one of those]
          hist
vars == <<hp, C, GS, S, EL, GV, it, IE, hist>>
View == <<hp, C, GS, S, EL, GV, it, IE>>
iv == <<it, IE>>
NoIE == [p |-> 0, x |-> 0, want |-> <<>>, gave |-> {}, pure |-> TRUE]

MH == 1..HANDLES
MG == 1..3

GotoC(h, p, d) == [a |-> "goto", h |-> h, p |-> p, m |-> d % 3, d |-> d, l |-> 0, v |-> 0]

Two == GNode(1, <<GTok(2, <<97>>)>>)   \* another tree, in handle 2 (mutable) or nowhere

Init ==
    \E t \in Trees(SIZE, {LeafA}, {1}) :
    LET mut == IF COPY = 1 THEN 0 ELSE 1
        g1 == GPlant(NoHeap, t)
        r1 == NewRootCursor(GInc(g1.h, g1.r), g1.r, mut)
        g2 == GPlant(r1.h, Two)
        r2 == NewRootCursor(g2.h, g2.r, 1)
        f1 == Plant(NoStore, t, mut)
        f2 == Plant(f1.s, Two, 1)
    IN /\ hp = IF COPY = 1 THEN r1.h ELSE r2.h
       /\ C = [h \in MH |-> IF h = 1 THEN r1.r ELSE IF h = 2 /\ COPY = 0 THEN r2.r ELSE 0]
       /\ GS = [g \in MG |-> IF g = 1 THEN g1.r ELSE 0]
       /\ S = IF COPY = 1 THEN f1.s ELSE f2.s
       /\ EL = [h \in MH |-> IF h = 1 THEN f1.r ELSE IF h = 2 /\ COPY = 0 THEN f2.r ELSE 0]
       /\ GV = [g \in MG |-> IF g = 1 THEN Some(t) ELSE None]
       /\ hist = << [a |-> "green", d |-> 1, g |-> t, m |-> 0],
                    [a |-> "root", g |-> 1, d |-> 1, m |-> mut, l |-> 0, v |-> 0] >>
                 \o IF COPY = 1 THEN <<>>
                    ELSE << [a |-> "green", d |-> 2, g |-> Two, m |-> 0],
                            [a |-> "root", g |-> 2, d |-> 2, m |-> 1, l |-> 0, v |-> 0],
                            [a |-> "dropg", g |-> 2] >>
       /\ it = NoIt /\ IE = NoIE

Used == { h \in MH : C[h] # 0 }
HasH == \E h \in MH : C[h] = 0
FreeH == CHOOSE h \in MH : C[h] = 0 /\ \A k \in 1..h - 1 : C[k] # 0
HasG == \E g \in MG : GS[g] = 0
FreeG == CHOOSE g \in MG : GS[g] = 0 /\ \A k \in 1..g - 1 : GS[k] # 0
Nodes == { h \in Used : S[EL[h]].n = 1 }
Muts == { h \in Used : S[EL[h]].m = 1 }
Kids(h) == S[EL[h]].c

Add(c) == hist' = Append(hist, c)
\* a new handle d on cursor r.r, which denotes element x
Get(r, x, d) == /\ hp' = r.h /\ C' = [C EXCEPT ![d] = r.r] /\ EL' = [EL EXCEPT ![d] = x]
                /\ UNCHANGED <<GS, S, GV, iv>>

AChild(h, i) == /\ Get(Child(hp, C[h], i), Kids(h)[i + 1], FreeH)
                /\ Add(GotoC(h, <<i>>, FreeH))
AParent(h) == /\ Get(Parent1(hp, C[h]), S[EL[h]].p, FreeH)
              /\ Add([a |-> "step", h |-> h, op |-> "parent", K |-> <<>>, d |-> FreeH, l |-> 0, v |-> 0])
ASib(h, j, op) ==
    /\ Get(Sibling(hp, C[h], j), S[S[EL[h]].p].c[j + 1], FreeH)
    /\ Add([a |-> "step", h |-> h, op |-> op, K |-> <<>>, d |-> FreeH, l |-> 0, v |-> 0])
AClone(h) == /\ Get([h |-> Inc(hp, C[h]), r |-> C[h]], EL[h], FreeH)
             /\ Add([a |-> "step", h |-> h, op |-> "clone", K |-> <<>>, d |-> FreeH, l |-> 0, v |-> 0])
AConsume(h) ==
    LET r == NextInPlace(hp, C[h])
        x == NextOrTok(S, EL[h])
    IN /\ hp' = r.h /\ C' = [C EXCEPT ![h] = r.r]
       /\ EL' = [EL EXCEPT ![h] = IF x = None THEN 0 ELSE x[1]]
       /\ UNCHANGED <<GS, S, GV, iv>>
       /\ Add([a |-> "stepc", h |-> h, op |-> "to_next_sibling_or_token", K |-> <<>>, d |-> h, l |-> 0, v |-> 0])
ADrop(h) == /\ hp' = Dec(hp, C[h]) /\ C' = [C EXCEPT ![h] = 0] /\ EL' = [EL EXCEPT ![h] = 0]
            /\ UNCHANGED <<GS, S, GV, iv>> /\ Add([a |-> "drop", h |-> h])
ADetach(h) == /\ hp' = HDetach(hp, C[h]) /\ S' = Detach(S, EL[h])
              /\ IE' = [IE EXCEPT !.pure = @ /\ (EL[h] \in IE.gave \/ it.on = 0)]
              /\ UNCHANGED <<C, GS, EL, GV, it>> /\ Add([a |-> "detach", h |-> h, l |-> 0, v |-> h % 2])
ASplice(h, lo, hi, ins) ==
    LET a == HSplice(hp, C[h], lo, hi, MapSeq(ins, LAMBDA k : C[k]))
        b == Splice(S, EL[h], lo, hi, MapSeq(ins, LAMBDA k : EL[k]))
    IN /\ hp' = (IF a.ok = b.ok THEN a.h ELSE Err(a.h, "refused by one only"))
       /\ S' = b.s
       /\ IE' = [IE EXCEPT !.pure = it.on = 0]
       /\ UNCHANGED <<C, GS, EL, GV, it>>
       /\ Add([a |-> "splice", h |-> h, lo |-> lo, hi |-> hi, ins |-> ins, l |-> 0, v |-> 0])
ACfu(h) ==
    LET r == HCloneForUpdate(hp, C[h])
        f == CloneForUpdate(S, EL[h])
    IN /\ hp' = r.h /\ C' = [C EXCEPT ![FreeH] = r.r] /\ EL' = [EL EXCEPT ![FreeH] = f.r] /\ S' = f.s
       /\ UNCHANGED <<GS, GV, iv>> /\ Add([a |-> "cfu", h |-> h, d |-> FreeH, l |-> 0])
ACsub(h) ==
    LET r == HCloneSubtree(hp, C[h])
        f == CloneSubtree(S, EL[h])
    IN /\ hp' = r.h /\ C' = [C EXCEPT ![FreeH] = r.r] /\ EL' = [EL EXCEPT ![FreeH] = f.r] /\ S' = f.s
       /\ UNCHANGED <<GS, GV, iv>> /\ Add([a |-> "csub", h |-> h, d |-> FreeH, l |-> 0])
ASnap(h) ==
    LET g == hp.n[C[h]].g
    IN /\ hp' = GInc(hp, g) /\ GS' = [GS EXCEPT ![FreeG] = g] /\ GV' = [GV EXCEPT ![FreeG] = Some(Val(S, EL[h]))]
       /\ UNCHANGED <<C, S, EL, iv>> /\ Add([a |-> "snap", h |-> h, d |-> FreeG, l |-> 0])
ADropG(g) == /\ hp' = GDec(hp, GS[g]) /\ GS' = [GS EXCEPT ![g] = 0] /\ GV' = [GV EXCEPT ![g] = None]
             /\ UNCHANGED <<C, S, EL, iv>> /\ Add([a |-> "dropg", g |-> g])
ARoot(g, m) ==
    LET r == NewRootCursor(GInc(hp, GS[g]), GS[g], m)
        f == Plant(S, GV[g][1], m)
    IN /\ hp' = r.h /\ C' = [C EXCEPT ![FreeH] = r.r] /\ EL' = [EL EXCEPT ![FreeH] = f.r] /\ S' = f.s
       /\ UNCHANGED <<GS, GV, iv>> /\ Add([a |-> "root", g |-> g, d |-> FreeH, m |-> m, l |-> 0, v |-> 0])

\* elements an iterator may stop at
Stops(c, t) == SelectSeq(c, LAMBDA y : t = 1 \/ S[y].n = 1)
NextStop(x, t) == IF S[x].p = 0 THEN 0
                  ELSE LET c == S[S[x].p].c
                           r == Stops(SubSeq(c, Index(S, x) + 2, Len(c)), t)
                       IN IF r = <<>> THEN 0 ELSE r[1]
AIterate(h, t) ==
    LET r == HIterate(hp, C[h], t)
    IN /\ hp' = r.h /\ it' = r.it
       /\ IE' = [NoIE EXCEPT !.p = EL[h], !.want = Stops(Kids(h), t)]
       /\ UNCHANGED <<C, GS, S, EL, GV>>
       /\ Add([a |-> "it", i |-> 1, h |-> h, op |-> IF t = 1 THEN "children_with_tokens" ELSE "children", K |-> <<>>, l |-> 0, v |-> 0])
\* what it gives goes to handle d, or nowhere (d = 0)
AItNext(d) ==
    LET r == HItNext(hp, it)
        w == Stops(S[IE.p].c, it.t)
        fst == IF w = <<>> THEN 0 ELSE w[1]
        x == IF S[IE.p].m = 1 THEN IF it.init = 1 THEN IE.x ELSE fst
             ELSE IF it.init = 0 THEN fst ELSE IF IE.x = 0 THEN 0 ELSE NextStop(IE.x, it.t)
        y == IF S[IE.p].m = 0 \/ x = 0 THEN x ELSE NextStop(x, it.t)
        astray == IE.pure /\ (IF IE.want = <<>> THEN r.r # 0 ELSE r.r = 0 \/ x # IE.want[1])
        h1 == IF d = 0 /\ r.r # 0 THEN Dec(r.h, r.r) ELSE r.h
    IN /\ hp' = (IF astray \/ (x = 0) # (r.r = 0) THEN Err(h1, "the iteration went astray") ELSE h1)
       /\ it' = r.it
       /\ IE' = [IE EXCEPT !.x = IF x = 0 THEN 0 ELSE y, !.gave = @ \cup {x}, !.want = IF @ = <<>> THEN @ ELSE Tail(@)]
       /\ IF d = 0 \/ r.r = 0 THEN UNCHANGED <<C, EL>> ELSE C' = [C EXCEPT ![d] = r.r] /\ EL' = [EL EXCEPT ![d] = x]
       /\ UNCHANGED <<GS, S, GV>>
       \* after other edits nothing is promised but that it gives elements
       /\ Add(IF IE.pure THEN [a |-> "itn", i |-> 1, d |-> d, v |-> 0] ELSE [a |-> "its", i |-> 1, n |-> 1, v |-> 0])
AItDrop == /\ hp' = HItDrop(hp, it) /\ it' = NoIt /\ IE' = NoIE
           /\ UNCHANGED <<C, GS, S, EL, GV>> /\ Add([a |-> "itd", i |-> 1])

Others ==
       \/ HasH /\ \E h \in Nodes : \E i \in 0..Len(Kids(h)) - 1 : AChild(h, i)
       \/ HasH /\ \E h \in Used : S[EL[h]].p # 0 /\ AParent(h)
       \/ HasH /\ \E h \in Used : S[EL[h]].p # 0 /\
            LET i == Index(S, EL[h]) IN
            \/ i + 1 < Len(S[S[EL[h]].p].c) /\ ASib(h, i + 1, "next_sibling_or_token")
            \/ i > 0 /\ ASib(h, i - 1, "prev_sibling_or_token")
       \/ HasH /\ \E h \in Used : AClone(h)
       \/ \E h \in Used : ADrop(h)
       \/ \E h \in Muts : S[EL[h]].p # 0 /\ ADetach(h)
       \/ \E h \in Muts \cap Nodes : \E lo \in 0..Len(Kids(h)) : \E hi \in lo..Len(Kids(h)) :
            \/ lo < hi /\ ASplice(h, lo, hi, <<>>)
            \/ \E k \in Muts : ASplice(h, lo, hi, <<k>>)
       \/ /\ ITER = 1
          /\ \/ it.on = 1 /\ (AItNext(0) \/ AItDrop)
             \/ it.on = 1 /\ IE.pure /\ HasH /\ AItNext(FreeH)
       \/ /\ COPY = 1
          /\ \/ \E h \in Used : AConsume(h)
             \/ HasH /\ \E h \in Nodes : S[EL[h]].m = 0 /\ ACfu(h)
             \/ HasH /\ \E h \in Nodes : ACsub(h)
             \/ HasG /\ \E h \in Nodes : ASnap(h)
             \/ \E g \in MG : GS[g] # 0 /\ ADropG(g)
             \/ HasH /\ \E g \in MG : GS[g] # 0 /\ \E m \in {0, 1} : ARoot(g, m)

Next ==
    /\ TLCGet("level") <= DEPTH
    \* ITER = 1: histories of an iterator, which begins soon
    /\ \/ ITER = 1 /\ it.on = 0 /\ \E h \in Nodes : \E t \in {0, 1} : AIterate(h, t)
       \/ (ITER = 0 \/ it.on = 1 \/ TLCGet("level") = 1) /\ Others

Spec == Init /\ [][Next]_vars
EmitHist == [][ EMIT = 1 /\ TLCGet("level") >= DEPTH => PrintT("HIST " \o ToJson(hist')) ]_vars

-----------------------------------------------------------------------------
RECURSIVE Listed(_)
Listed(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o Listed(X \ {x})
Owners == LET u == Listed(Used)
          IN [i \in 1..Len(u) |-> C[u[i]]] \o (IF it.par = 0 THEN <<>> ELSE <<it.par>>) \o (IF it.nx = 0 THEN <<>> ELSE <<it.nx>>)
GOwners == LET u == Listed({ g \in MG : GS[g] # 0 }) IN [i \in 1..Len(u) |-> GS[u[i]]]

Inv_NoErrors == hp.e = {}
Inv_Counts == SoundCounts(hp, Owners, GOwners)
Inv_Rings == SoundRings(hp)
Inv_Links == SoundLinks(hp)
\* every handle shows the element it denotes
Shows(c, x) ==
    /\ hp.n[c].m = S[x].m
    /\ HPath(hp, c) = Path(S, x)
    /\ GVal(hp, hp.n[c].g) = Val(S, x)
    /\ Off(hp, c) = Start(S, x)
    /\ hp.g[hp.n[c].g].w = S[x].w
Inv_Refines == /\ \A h \in Used : Shows(C[h], EL[h])
               /\ it.par # 0 => Shows(it.par, IE.p)
               /\ it.nx # 0 /\ WEAK # "it-late" => Shows(it.nx, IE.x)
Inv_Snapshots == \A g \in MG : GS[g] # 0 => GVal(hp, GS[g]) = GV[g][1]
\* one cursor per element of a mutable tree; equality of handles
Inv_Identity == \A h, k \in Used :
    /\ S[EL[h]].m = 1 => ((EL[h] = EL[k]) <=> (C[h] = C[k]))
    /\ EL[h] = EL[k] => Key(hp, C[h]) = Key(hp, C[k])
    /\ (RootOf(S, EL[h]) = RootOf(S, EL[k]) /\ Key(hp, C[h]) = Key(hp, C[k]) /\ EL[h] # EL[k]) =>
           (S[EL[h]].w = 0 /\ Val(S, EL[h]) = Val(S, EL[k]))
\* nothing is kept for nothing: with the last owner everything goes
Inv_Empty == (Used = {} /\ it.on = 0 /\ \A g \in MG : GS[g] = 0) => Cursor(hp) = {} /\ GreenObj(hp) = {}
Inv_Forest == WellFormed(S)
=============================================================================
