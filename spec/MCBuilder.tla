------------------------------ MODULE MCBuilder ------------------------------
(***************************************************************************)
(* Every sequence of up to N builder calls, with the cache as it is built: *)
(* elements are looked up by a hash of their kind and of the hashes of     *)
(* their children (hashes collide: there are only two) and compared by     *)
(* kind and identity of the children, nodes of more than three children    *)
(* or with an unshared child are always made anew.  Checked: what the      *)
(* builder makes is what the calls describe when every wrapping call is    *)
(* read as a start_node at the place of its checkpoint, the text is the    *)
(* text added, and the cache shares exactly what Builder promises.         *)
(***************************************************************************)
EXTENDS Builder, TLC, Json, IOUtils

VARIABLES b,      \* the builder (Builder.tla)
          hist,   \* all calls
          plain,  \* the calls with wrapping resolved: "t", "s", "f" and marks
          obj,    \* objects made: [n, k, t, c: ids]
          tab,    \* the cache: <<hash, id>>
          refd,   \* a call has been refused (at most one per history)
          kid     \* for every element of b.ks its <<hash, id>> (hash 0: not in the cache)

mv == <<b, hist, plain, obj, tab, refd, kid>>

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
N == Env("CALLS", 5)
EMIT == Env("EMIT", 0)

Cl(o, k, t, i) == [o |-> o, k |-> k, t |-> t, i |-> i]
CallSet == { Cl("t", 1, <<97>>, 0), Cl("t", 1, <<>>, 0), Cl("s", 1, <<>>, 0), Cl("f", 0, <<>>, 0),
             Cl("c", 0, <<>>, 1), Cl("a", 2, <<>>, 1) }

\* hashes: of a key with children given by their hashes; never 0
HashTok(k, t) == 1 + ((k + Len(t)) % 2)
HashNode(k, hs) == 1 + ((k + Sum(hs)) % 2)

Lookup(h, o) == { e \in tab : e[1] = h /\ obj[e[2]] = o }
Intern(h, o) ==
    IF Lookup(h, o) # {} THEN /\ obj' = obj /\ tab' = tab
                              /\ kid' = Append(kid, CHOOSE e \in Lookup(h, o) : TRUE)
    ELSE /\ obj' = Append(obj, o) /\ tab' = tab \cup {<<h, Len(obj) + 1>>}
         /\ kid' = Append(kid, <<h, Len(obj) + 1>>)
FinNode ==
    LET p == Last(b.ps)
        ch == SubSeq(kid, p[2] + 1, Len(kid))
        o == [n |-> 1, k |-> p[1], t |-> <<>>, c |-> MapSeq(ch, LAMBDA e : e[2])]
        h == HashNode(p[1], MapSeq(ch, LAMBDA e : e[1]))
        rest == SubSeq(kid, 1, p[2])
    IN IF Len(ch) > 3 \/ \E i \in DOMAIN ch : ch[i][1] = 0
       THEN obj' = Append(obj, o) /\ tab' = tab /\ kid' = Append(rest, <<0, Len(obj) + 1>>)
       ELSE IF Lookup(h, o) # {} THEN obj' = obj /\ tab' = tab /\ kid' = Append(rest, CHOOSE e \in Lookup(h, o) : TRUE)
       ELSE obj' = Append(obj, o) /\ tab' = tab \cup {<<h, Len(obj) + 1>>} /\ kid' = Append(rest, <<h, Len(obj) + 1>>)

\* position in plain after the mark of the checkpoint, or after the start of
\* the innermost open node when that is later
MarkPos == LET X == { i \in DOMAIN plain : plain[i].o = "c" } IN IF X = {} THEN 0 ELSE CHOOSE i \in X : \A j \in X : j <= i
RECURSIVE OpenPos(_, _)
OpenPos(i, d) == IF i = 0 THEN 0
                 ELSE IF plain[i].o = "f" THEN OpenPos(i - 1, d + 1)
                 ELSE IF plain[i].o = "s" THEN IF d = 0 THEN i ELSE OpenPos(i - 1, d - 1)
                 ELSE OpenPos(i - 1, d)
PutAfter(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))

MInit == b = BNew(1) /\ hist = <<>> /\ plain = <<>> /\ obj = <<>> /\ tab = {} /\ refd = FALSE /\ kid = <<>>
MNext == \E x \in CallSet :
    /\ Len(hist) < N
    /\ ~CallMay(b, x)
    /\ hist' = Append(hist, x)
    /\ IF ~CallOk(b, x) THEN ~refd /\ refd' = TRUE /\ UNCHANGED <<b, plain, obj, tab, kid>>
       ELSE /\ refd' = refd
            /\ b' = Call(b, x)
            /\ plain' = IF x.o = "a" THEN PutAfter(plain, MaxOf(MarkPos, OpenPos(Len(plain), 0)), Cl("s", x.k, <<>>, 0))
                        ELSE Append(plain, x)
            /\ CASE x.o = "t" -> Intern(HashTok(x.k, x.t), [n |-> 0, k |-> x.k, t |-> x.t, c |-> <<>>])
                 [] x.o = "f" -> FinNode
                 [] OTHER -> UNCHANGED <<obj, tab, kid>>
MSpec == MInit /\ [][MNext]_mv

\* every full-length history for the driver
Emit == (EMIT = 1 /\ Len(hist) = N) => PrintT("CALLS " \o ToJson(hist))

-----------------------------------------------------------------------------
\* recursive descent over the plain calls: [i |-> next, l |-> elements]
RECURSIVE Parse(_, _)
Parse(i, acc) ==
    IF i > Len(plain) \/ plain[i].o = "f" THEN [i |-> i, l |-> acc]
    ELSE IF plain[i].o = "t" THEN Parse(i + 1, Append(acc, GTok(plain[i].k, plain[i].t)))
    ELSE IF plain[i].o = "c" THEN Parse(i + 1, acc)
    ELSE LET r == Parse(i + 1, <<>>) IN Parse(r.i + 1, Append(acc, GNode(plain[i].k, r.l)))

Inv_Shape == b.ps = <<>> => Parse(1, <<>>).l = b.ks
Inv_Text == Cat(MapSeq(b.ks, LAMBDA g : GText(g))) =
            Cat(MapSeq(SelectSeq(hist, LAMBDA x : x.o = "t"), LAMBDA x : x.t))
Inv_Positions == /\ Len(kid) = Len(b.ks)
                 /\ \A i \in DOMAIN b.ps : b.ps[i][2] <= Len(b.ks)
                 /\ \A i \in 1..Len(b.ps) - 1 : b.ps[i][2] <= b.ps[i + 1][2]

RECURSIVE Deep(_)
Deep(i) == [obj[i] EXCEPT !.c = MapSeq(obj[i].c, LAMBDA j : Deep(j))]
RECURSIVE Small3(_)
Small3(g) == Len(g.c) <= 3 /\ \A i \in DOMAIN g.c : Small3(g.c[i])
Inv_Content == \A i \in DOMAIN kid : Deep(kid[i][2]) = b.ks[i]
Inv_Sharing == \A i \in DOMAIN obj :
    /\ (\E e \in tab : e[2] = i) = Small3(Deep(i))
    /\ \A j \in DOMAIN obj : i # j /\ Deep(i) = Deep(j) => ~Small3(Deep(i))
\* the promise as it is checked on traces
RECURSIVE Ids(_)
Ids(i) == FoldLeft(LAMBDA a, j : a \o Ids(j), <<i>>, obj[i].c)
Inv_Promise == OneToOne(UNION { SharedSet(b.ks[i], Ids(kid[i][2])) : i \in DOMAIN b.ks })
=============================================================================
