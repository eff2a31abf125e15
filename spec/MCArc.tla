------------------------------- MODULE MCArc -------------------------------
(***************************************************************************)
(* The reference count of shared green elements, step by atomic step.      *)
(*                                                                         *)
(* Elements: 1 a node, 2 its only child. Every thread starts with one      *)
(* handle to the node and performs at most K operations, chosen freely:    *)
(*   "c" clone the top handle      "k" own the child of the top handle     *)
(*   "r" read through it           "d" drop it                             *)
(* until it has none left. Between two atomic operations a thread is not   *)
(* interrupted: what it does there concerns nobody but itself, except in   *)
(* the happens-before relation, which does not depend on real time.        *)
(*                                                                         *)
(* WEAK names a mistake the laws have to notice:                           *)
(*   "sub" decrement not releasing, "load" no acquire before the release   *)
(*   of memory, "split" increment in two steps, "early" memory released    *)
(*   when one other owner is left                                          *)
(***************************************************************************)
EXTENDS HB, IOUtils, SequencesExt, Integers, Json

N == atoi(IOEnv.THREADS)
K == atoi(IOEnv.OPS)
WEAK == IF "WEAK" \in DOMAIN IOEnv THEN IOEnv.WEAK ELSE ""
EMIT == "EMIT" \in DOMAIN IOEnv
Ts == 1..N
Os == {1, 2}

VARIABLES cnt,   \* count of an element
          live,  \* elements whose memory is in use
          own,   \* thread -> stack of its handles
          pc,    \* thread -> what it is about to do
          prog,  \* thread -> operations begun
          h,     \* happens-before
          acc,   \* element -> last access by thread
          bad,   \* what went wrong
          hist   \* schedule
vars == <<cnt, live, own, pc, prog, h, acc, bad, hist>>
View == <<cnt, live, own, pc, [t \in Ts |-> Len(prog[t])], h, acc, bad>>

\* the part of the state that one thread's step computes on
St == [cnt |-> cnt, live |-> live, own |-> own, pc |-> pc, prog |-> prog, h |-> h, acc |-> acc, bad |-> bad]

\* thread t uses the memory of element o
Use(s, t, o) == [s EXCEPT !.acc[o] = Touch(@, s.h, t),
                          !.bad = IF o \in s.live THEN @ ELSE @ \cup {<<"use after release", o>>}]
At(s, t, o, op, ord) == LET u == Use(s, t, o) IN [u EXCEPT !.h = Atomic(@, t, o, op, ord)]

\* release the memory of o
Free(s, t, o) ==
    [s EXCEPT !.live = @ \ {o},
              !.bad = @ \cup (IF o \in s.live THEN {} ELSE {<<"released twice", o>>})
                         \cup (IF Before(s.h, s.acc[o], t) THEN {} ELSE {<<"access races with release", o>>})]

\* the actions that follow the last decrement of o
Last1(o) == (IF WEAK = "load" THEN <<>> ELSE <<<<"load", o>>>>) \o (IF o = 1 THEN <<<<"sub", 2>>>> ELSE <<>>) \o <<<<"free", o>>>>

\* operations that need no atomic step are performed, until the next one that does
RECURSIVE Run(_, _, _)
Run(s, t, os) ==   \* os: the operations to come
    IF s.pc[t] # <<>>
    THEN IF Head(s.pc[t])[1] = "free"
         THEN Run([Free(s, t, Head(s.pc[t])[2]) EXCEPT !.pc[t] = Tail(@)], t, os)
         ELSE s
    ELSE IF os = <<>> THEN s
    ELSE LET o == Head(s.own[t])
             op == Head(os)
             s1 == [s EXCEPT !.prog[t] = Append(@, op)]
             s2 == CASE op = "r" -> Use(s1, t, o)
                     [] op = "c" -> [s1 EXCEPT !.pc[t] = IF WEAK = "split" THEN <<<<"get", o>>>> ELSE <<<<"add", o>>>>]
                     [] op = "k" -> [Use(s1, t, o) EXCEPT !.pc[t] = <<<<"add", 2>>>>]
                     [] op = "d" -> [s1 EXCEPT !.pc[t] = <<<<"sub", o>>>>, !.own[t] = Tail(@)]
         IN Run(s2, t, Tail(os))

\* the operations thread t may go on with until it performs an atomic step again
Left(s, t) == K - Len(s.prog[t]) - Len(s.own[t])
Conts(s, t) ==
    LET w == s.own[t]
        room == Left(s, t)
        atom == (IF w # <<>> THEN {<<"d">>} ELSE {})
                \cup (IF w # <<>> /\ room >= 2 THEN {<<"c">>} ELSE {})
                \cup (IF w # <<>> /\ room >= 2 /\ Head(w) = 1 THEN {<<"k">>} ELSE {})
        read == IF w # <<>> /\ room >= 1 THEN { <<"r">> \o a : a \in {x \in atom : x = <<"d">> \/ room >= 3} } ELSE {}
    IN IF w = <<>> THEN {<<>>} ELSE atom \cup read

\* the atomic step at the head of pc
Do(s, t) ==
    LET a == Head(s.pc[t])
        o == a[2]
        r == [s EXCEPT !.pc[t] = Tail(@)]
    IN CASE a[1] = "add" -> LET u == At(r, t, o, "update", 0)
                            IN [u EXCEPT !.cnt[o] = @ + 1, !.own[t] = <<o>> \o @]
         [] a[1] = "get" -> [At(r, t, o, "load", 0) EXCEPT !.pc[t] = <<<<"put", o, s.cnt[o] + 1>>>> \o @]
         [] a[1] = "put" -> [At(r, t, o, "store", 0) EXCEPT !.cnt[o] = a[3], !.own[t] = <<o>> \o @]
         [] a[1] = "sub" -> LET u == At(r, t, o, "update", IF WEAK = "sub" THEN 0 ELSE 2)
                                n == s.cnt[o] - 1
                            IN [u EXCEPT !.cnt[o] = n,
                                         !.pc[t] = IF n = (IF WEAK = "early" THEN 1 ELSE 0) THEN Last1(o) \o @ ELSE @]
         [] a[1] = "load" -> At(r, t, o, "load", 1)

\* where a thread that has done its step stands: still in an operation, or free to choose
Settle(s, t) ==
    LET s1 == Run(s, t, <<>>)
    IN IF s1.pc[t] # <<>> THEN {s1} ELSE { Run(s1, t, os) : os \in Conts(s1, t) }

Begin == { Run([cnt |-> (1 :> N @@ 2 :> 1), live |-> Os, own |-> [t \in Ts |-> <<1>>],
               pc |-> [t \in Ts |-> <<>>], prog |-> TLCEval([t \in Ts |-> <<>>]),
               h |-> HBInit(Ts), acc |-> [o \in Os |-> Zero(Ts)], bad |-> {}], 1, os)
           : os \in Conts([prog |-> [t \in Ts |-> <<>>], own |-> [t \in Ts |-> <<1>>]], 1) }
RECURSIVE Starts(_, _)
Starts(S, t) == IF t > N THEN S
                ELSE Starts(UNION { { Run(s, t, os) : os \in Conts(s, t) } : s \in S }, t + 1)

IsState(s) == /\ cnt = s.cnt /\ live = s.live /\ own = s.own /\ pc = s.pc /\ prog = TLCEval(s.prog)
              /\ h = s.h /\ acc = s.acc /\ bad = s.bad
Becomes(s) == /\ cnt' = s.cnt /\ live' = s.live /\ own' = s.own /\ pc' = s.pc /\ prog' = TLCEval(s.prog)
              /\ h' = s.h /\ acc' = s.acc /\ bad' = s.bad

Init == /\ hist = <<>>
        /\ \E s \in Starts(Begin, 2) : IsState(s)
Step(t) == /\ pc[t] # <<>>
           /\ hist' = IF EMIT THEN Append(hist, t) ELSE hist
           /\ \E s \in Settle(Do(St, t), t) : Becomes(s)
Next == \E t \in Ts : Step(t)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == \A t \in Ts : pc[t] = <<>>
InFlight(o, a) == Cardinality({ t \in Ts : \E i \in DOMAIN pc[t] : pc[t][i] = <<a, o>> })
Handles(o) == FoldLeft(LAMBDA n, t : n + Len(SelectSeq(own[t], LAMBDA x : x = o)), 0, SetToSeq(Ts))

\* the count is the number of owners: handles, handles being dropped, the live parent
Counted == WEAK = "" => \A o \in Os :
    cnt[o] = Handles(o) + InFlight(o, "sub") + (IF o = 2 /\ cnt[1] > 0 THEN 1 ELSE 0)
Sound == bad = {}
Held == \A t \in Ts : \A i \in DOMAIN own[t] : own[t][i] \in live /\ (own[t][i] = 1 => 2 \in live)
Complete == Done => live = {}

Emit == [][ Done' /\ EMIT => PrintT("SCHED " \o ToJson([p |-> prog', s |-> hist'])) ]_vars
=============================================================================
