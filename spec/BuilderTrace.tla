---------------------------- MODULE BuilderTrace ----------------------------
(***************************************************************************)
(* Validates recorded histories of real builders and caches.               *)
(***************************************************************************)
EXTENDS Builder, Json, TLC, IOUtils

VARIABLES B, T, G, l,
          K   \* cache -> family of elements numbered from 0 -> how many of them it holds
bvars == <<B, T, G, l, K>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
BS == 1..3
CS == 1..3
GS == 1..12

NoB == [c |-> 0 - 1]
Init0 == /\ B = [b \in BS |-> NoB]
         /\ T = [c \in CS |-> {}]      \* what has to be shared with what comes
         /\ G = [g \in GS |-> None]
FS == 1..4
NoK == [c \in CS |-> [f \in FS |-> 0]]
TInit == Init0 /\ l = 1 /\ K = NoK

Chk(tag, exp, act) ==
    IF exp = act THEN TRUE
    ELSE PrintT(<<"MISMATCH", l, tag, "expected", exp, "recorded", act>>) /\ FALSE

\* a list of calls with their recorded outcomes (1: done, 0: refused)
Calls(b, cs, r) ==
    LET step(a, x) ==
            LET q == r[a.i]
                ok == CallOk(a.b, x)
                may == CallMay(a.b, x)
                fits == IF may THEN q \in {0, 1} ELSE q = (IF ok THEN 1 ELSE 0)
            IN [i |-> a.i + 1, ok |-> a.ok /\ fits, bad |-> IF a.ok /\ ~fits THEN <<a.i, x, q>> ELSE a.bad,
                b |-> IF ok /\ q = 1 THEN Call(a.b, x) ELSE a.b]
    IN FoldLeft(step, [i |-> 1, ok |-> TRUE, bad |-> <<>>, b |-> b], cs)

Keep(P) == IF OneToOne(P) THEN TRUE
           ELSE PrintT(<<"MISMATCH", l, "sharing", CHOOSE c \in Clash(P) : TRUE>>) /\ FALSE

(***************************************************************************)
(* Large caches in closed form.  A family has elements numbered 0, 1, ..;  *)
(* element i is made of the token of kind kt whose text is a prefix of w   *)
(* bytes and i in six digits, with kn a kind of nodes:                     *)
(*   shape 0: the token   1: a node of it   3: a node of a node of it      *)
(*         2: a node of the token, the token and a childless node          *)
(* "bulk" builds the elements lo..hi-1 below one root.  lo is at most the  *)
(* number of elements the cache holds already.  right: how many children   *)
(* read back as described; toks, nodes: how many different tokens, nodes   *)
(* there are below all roots built from this family with this cache.       *)
(***************************************************************************)
Max2(a, b) == IF a > b THEN a ELSE b
Bulk(e) ==
    LET n == e.hi - e.lo
        all == Max2(K[e.c][e.f], e.hi)
        per == CASE e.shape = 0 -> 0 [] e.shape = 1 -> all [] e.shape = 2 -> all + 1 [] OTHER -> 2 * all
    IN /\ Chk("elements in order", TRUE, e.lo <= K[e.c][e.f])
       /\ Chk("children, and those as described", <<n, n>>, <<e.n, e.right>>)
       /\ Chk("length of the text", n * (e.w + 6) * (IF e.shape = 2 THEN 2 ELSE 1), e.len)
       /\ Chk("different tokens and nodes", <<all, per>>, <<e.toks, e.nodes>>)
KNext(e) == CASE e.a = "reset" -> NoK
              [] e.a = "cache" -> [K EXCEPT ![e.c] = [f \in FS |-> 0]]
              [] e.a = "bulk" -> [K EXCEPT ![e.c][e.f] = Max2(@, e.hi)]
              [] OTHER -> K

TStep(e) ==
    CASE e.a = "reset" -> /\ B' = [b \in BS |-> NoB] /\ T' = [c \in CS |-> {}] /\ G' = [g \in GS |-> None]
      [] e.a = "note" -> UNCHANGED <<B, T, G>>
      [] e.a = "bulk" -> Bulk(e) /\ UNCHANGED <<B, T, G>>
      [] e.a = "cache" -> T' = [T EXCEPT ![e.c] = {}] /\ UNCHANGED <<B, G>>
      [] e.a = "bnew" -> B' = [B EXCEPT ![e.b] = BNew(e.c)] /\ UNCHANGED <<T, G>>
      [] e.a = "bdrop" -> B' = [B EXCEPT ![e.b] = NoB] /\ UNCHANGED <<T, G>>
      [] e.a = "calls" ->
            LET x == Calls(B[e.b], e.cs, e.r)
            IN /\ Chk("outcome of a builder call", TRUE, IF x.ok THEN TRUE ELSE x.bad)
               /\ B' = [B EXCEPT ![e.b] = x.b]
               /\ UNCHANGED <<T, G>>
      [] e.a = "bend" ->
            LET b == B[e.b]
                g == b.ks[1]
            IN /\ B' = [B EXCEPT ![e.b] = NoB]
               /\ IF BEndMay(b) THEN G' = [G EXCEPT ![e.d] = IF e.st = 1 THEN Some(e.o) ELSE @] /\ T' = T
                  ELSE IF ~BEndOk(b) THEN Chk("finish of no single tree", 0, e.st) /\ UNCHANGED <<T, G>>
                  ELSE /\ Chk("finish", <<1, g>>, <<e.st, e.o>>)
                       /\ Chk("length of the text", GLen(g), e.len)
                       /\ Chk("text", GText(g), e.txt)
                       /\ LET new == SharedSet(g, e.ids)
                          IN IF b.c = 0 THEN Keep(new) /\ T' = T
                             ELSE Keep(new \cup T[b.c]) /\ T' = [T EXCEPT ![b.c] = @ \cup new]
                       /\ G' = [G EXCEPT ![e.d] = Some(g)]
      [] e.a = "gdrop" -> G' = [G EXCEPT ![e.d] = None] /\ UNCHANGED <<B, T>>
      [] e.a = "trees" ->
            /\ Chk("trees", {g \in GS : G[g] # None}, {e.rs[i].g : i \in DOMAIN e.rs})
            /\ \A i \in DOMAIN e.rs : Chk(<<"tree", e.rs[i].g>>, G[e.rs[i].g][1], e.rs[i].o)
            /\ UNCHANGED <<B, T, G>>
      [] OTHER -> PrintT(<<"UNKNOWN EVENT", e.a>>) /\ FALSE

TNext == l <= Len(Trace) /\ TStep(Trace[l]) /\ K' = KNext(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_bvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
