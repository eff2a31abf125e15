------------------------------ MODULE ArcTrace ------------------------------
(***************************************************************************)
(* Validates recorded runs of threads that share green elements.           *)
(*                                                                         *)
(* Nothing is said about how owners are counted. Every block of memory     *)
(* that a handle reaches is in use; memory is released once, by a thread   *)
(* whose past contains every access to it (as far as the memory orders of  *)
(* the recorded atomic operations tell); when no operation is under way,   *)
(* the blocks in use are those that handles reach; and every handle shows  *)
(* the content it was made with.                                           *)
(***************************************************************************)
EXTENDS HB, Green, Json, IOUtils

VARIABLES hb,    \* atomic operations are recorded
          h,     \* happens-before
          L,     \* blocks in use
          acc,   \* block -> [thread -> last access]
          st,    \* thread -> stack of handles [g |-> content, b |-> blocks]
          box,   \* thread -> handles under way to it, with the past of the sender
          busy,  \* threads in the middle of an operation
          l
avars == <<hb, h, L, acc, st, box, busy, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ts == 0..4

Chk(tag, exp, act) ==
    IF exp = act THEN TRUE
    ELSE PrintT(<<"MISMATCH", l, tag, "expected", exp, "recorded", act>>) /\ FALSE
Must(tag, x) == IF x THEN TRUE ELSE PrintT(<<"MISMATCH", l, tag>>) /\ FALSE

Fresh == /\ hb = FALSE /\ h = HBInit(Ts) /\ L = {} /\ acc = <<>>
         /\ st = [t \in Ts |-> <<>>] /\ box = [t \in Ts |-> <<>>] /\ busy = {}
AInit == Fresh /\ l = 1

Reach == UNION ({ UNION { st[t][i].b : i \in DOMAIN st[t] } : t \in Ts }
                \cup { UNION { box[t][i].b : i \in DOMAIN box[t] } : t \in Ts })
\* thread t uses blocks B
UseAll(a, B, t, hh) == [b \in DOMAIN a |-> IF b \in B THEN Touch(a[b], hh, t) ELSE a[b]]
Top(t) == st[t][Len(st[t])]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

NineTimes2(g) == GNode(9, <<g, g>>)
\* the content of the element an operation makes
Made(e, src) ==
    CASE e.op \in {"c", "g", "N"} -> src.g
      [] e.op = "k" -> src.g.c[(e.u % Len(src.g.c)) + 1]
      [] e.op = "R" -> GReplaceChild(src.g, 0, src.g)
      [] e.op = "C" -> src.g.c[1]
      [] e.op = "M" -> GRemoveChild(src.g, 0)
      [] e.op = "B" -> NineTimes2(src.g)

Begin(e) ==
    /\ busy' = busy \cup {e.t}
    /\ CASE e.op = "d" ->
                /\ acc' = UseAll(acc, Top(e.t).b, e.t, h)
                /\ st' = [st EXCEPT ![e.t] = Pop(@)] /\ UNCHANGED <<h, box>>
         [] e.op = "S" ->
                /\ acc' = UseAll(acc, Top(e.t).b, e.t, h)
                /\ st' = [st EXCEPT ![e.t] = Pop(@)]
                /\ box' = [box EXCEPT ![e.u] = Append(@, [g |-> Top(e.t).g, b |-> Top(e.t).b, c |-> h.vc[e.t]])]
                /\ h' = Advance(h, e.t)
         [] OTHER -> UNCHANGED <<acc, st, h, box>>

Pushed(e, o, B) ==
    /\ st' = [st EXCEPT ![e.t] = Append(@, [g |-> o, b |-> B])]
    /\ acc' = UseAll(acc, B, e.t, h)
    /\ UNCHANGED box

\* from where the thread lent a handle (thread 0 does nothing meanwhile)
Source(e) == IF e.op = "g" THEN st[0][(e.u % Len(st[0])) + 1] ELSE Top(e.t)

End(e) ==
    /\ busy' = busy \ {e.t}
    /\ Chk("operation succeeds", 1, e.st)
    /\ CASE e.op \in {"d", "S"} -> UNCHANGED <<acc, st, h, box>>
         [] e.op = "V" ->
                /\ st' = [st EXCEPT ![e.t] = Append(@, [g |-> Head(box[e.u]).g, b |-> Head(box[e.u]).b])]
                /\ box' = [box EXCEPT ![e.u] = Tail(@)]
                /\ h' = Learn(h, e.t, Head(box[e.u]).c) /\ acc' = acc
         [] e.op = "r" -> /\ Chk("content", Top(e.t).g, e.o)
                          /\ acc' = UseAll(acc, Top(e.t).b, e.t, h) /\ UNCHANGED <<st, h, box>>
         [] e.op = "E" -> /\ Chk("equality", IF Top(e.t).g = st[e.t][Len(st[e.t]) - 1].g THEN 1 ELSE 0, e.r)
                          /\ acc' = UseAll(acc, Top(e.t).b \cup st[e.t][Len(st[e.t]) - 1].b, e.t, h)
                          /\ UNCHANGED <<st, h, box>>
         [] e.op = "n" -> Pushed(e, e.o, Range(e.ids)) /\ h' = h
         [] OTHER -> /\ Chk(<<"content made by", e.op>>, Made(e, Source(e)), e.o)
                     /\ Must("new handle reaches memory in use", Range(e.ids) \subseteq L)
                     /\ st' = [st EXCEPT ![e.t] = Append(@, [g |-> e.o, b |-> Range(e.ids)])]
                     /\ acc' = UseAll(acc, Range(e.ids) \cup Source(e).b, e.t, h)
                     /\ UNCHANGED <<h, box>>

Quiet == busy' = {} => Chk("blocks in use and not reached, reached and not in use", <<{}, {}>>, <<L' \ Reach', Reach' \ L'>>)

AStep(e) ==
    CASE e.a = "reset" -> /\ hb' = FALSE /\ h' = HBInit(Ts) /\ L' = {} /\ acc' = <<>>
                          /\ st' = [t \in Ts |-> <<>>] /\ box' = [t \in Ts |-> <<>>] /\ busy' = {}
      [] e.a = "note" -> UNCHANGED <<hb, h, L, acc, st, box, busy>>
      [] e.a = "run" -> hb' = (e.hb = 1) /\ UNCHANGED <<h, L, acc, st, box, busy>>
      [] e.a = "al" -> /\ L' = L \cup {e.b}
                       /\ acc' = acc @@ (e.b :> Touch(Zero(Ts), h, e.t))
                       /\ UNCHANGED <<hb, h, st, box, busy>>
      [] e.a = "fr" -> /\ Must(<<"block released twice", e.b>>, e.b \in L)
                       /\ Must(<<"block released while a handle reaches it", e.b>>, e.b \notin Reach)
                       /\ hb => Must(<<"release races with an access of another thread", e.b, acc[e.b], h.vc[e.t]>>,
                                     Before(h, acc[e.b], e.t))
                       /\ L' = L \ {e.b} /\ UNCHANGED <<hb, h, acc, st, box, busy>>
      [] e.a = "at" -> /\ e.b # 0 => Must(<<"atomic operation on released memory", e.b>>, e.b \in L)
                       /\ acc' = IF e.b # 0 THEN UseAll(acc, {e.b}, e.t, h) ELSE acc
                       /\ h' = Atomic(h, e.t, e.x, e.op, e.o)
                       /\ UNCHANGED <<hb, L, st, box, busy>>
      [] e.a = "start" -> /\ h' = [h EXCEPT !.vc = [t \in Ts |-> IF t = 0 THEN Tick(@[0], 0) ELSE Join(@[t], @[0])]]
                          /\ UNCHANGED <<hb, L, acc, st, box, busy>>
      [] e.a = "join" -> /\ h' = [h EXCEPT !.vc[0] = [u \in Ts |-> h.vc[u][u]]]
                         /\ UNCHANGED <<hb, L, acc, st, box, busy>>
      [] e.a = "swap" -> /\ st' = [st EXCEPT ![e.t] = [@ EXCEPT ![e.i] = Top(e.t), ![Len(st[e.t])] = st[e.t][e.i]]]
                         /\ UNCHANGED <<hb, h, L, acc, box, busy>>
      [] e.a = "op" -> Begin(e) /\ UNCHANGED <<hb, L>>
      [] e.a = "end" -> End(e) /\ UNCHANGED <<hb, L>> /\ Quiet
      [] e.a = "over" -> /\ Chk("blocks left, released twice, written to after release", <<0, 0, 0>>, e.left)
                         /\ Chk("threads end", <<{}, {}>>, <<busy, { t \in Ts : st[t] # <<>> }>>)
                         /\ UNCHANGED <<hb, h, L, acc, st, box, busy>>
      [] e.a = "types" ->
            /\ \A i \in DOMAIN e.rs :
                   Chk(<<e.rs[i].ty, "may be sent, may be shared">>,
                       IF e.rs[i].w = "green" THEN <<1, 1>> ELSE <<0, 0>>, <<e.rs[i].send, e.rs[i].sync>>)
            /\ UNCHANGED <<hb, h, L, acc, st, box, busy>>
      [] OTHER -> PrintT(<<"UNKNOWN EVENT", e.a>>) /\ FALSE

ANext == l <= Len(Trace) /\ AStep(Trace[l]) /\ l' = l + 1
ASpec == AInit /\ [][ANext]_avars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
