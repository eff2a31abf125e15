------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Display, Debug and serialised forms, as sequences of code points.       *)
(***************************************************************************)
EXTENDS Forest

AAt        == <<64>> \* '@'
ADots      == <<46, 46>> \* '..'
AMore      == <<32, 46, 46, 46>> \* ' ...'
AKind      == <<75>> \* 'K'
ASynKind   == <<83, 121, 110, 116, 97, 120, 75, 105, 110, 100, 40>> \* 'SyntaxKind('
ASynNode   == <<83, 121, 110, 116, 97, 120, 78, 111, 100, 101, 32, 123, 32, 107, 105, 110, 100, 58, 32>> \* 'SyntaxNode { kind: '
ARange     == <<44, 32, 116, 101, 120, 116, 95, 114, 97, 110, 103, 101, 58, 32>> \* ', text_range: '
AEnd       == <<32, 125>> \* ' }'
AGreenNode == <<71, 114, 101, 101, 110, 78, 111, 100, 101, 32, 123, 32, 107, 105, 110, 100, 58, 32>> \* 'GreenNode { kind: '
ALen       == <<44, 32, 116, 101, 120, 116, 95, 108, 101, 110, 58, 32>> \* ', text_len: '
AKids      == <<44, 32, 110, 95, 99, 104, 105, 108, 100, 114, 101, 110, 58, 32>> \* ', n_children: '
AGreenTok  == <<71, 114, 101, 101, 110, 84, 111, 107, 101, 110, 32, 123, 32, 107, 105, 110, 100, 58, 32>> \* 'GreenToken { kind: '
ATxt       == <<44, 32, 116, 101, 120, 116, 58, 32>> \* ', text: '

RECURSIVE Dec(_)
Dec(i) == IF i < 10 THEN <<48 + i>> ELSE Append(Dec(i \div 10), 48 + (i % 10))

Hex1(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexN(_)
HexN(i) == IF i < 16 THEN <<Hex1(i)>> ELSE Append(HexN(i \div 16), Hex1((i % 16)))

\* a character inside a quoted string; the characters the model uses are
\* the ASCII ones and printable ones beyond
Esc(c) == CASE c = 34 -> <<92, 34>>
            [] c = 92 -> <<92, 92>>
            [] c = 10 -> <<92, 110>>
            [] c = 9  -> <<92, 116>>
            [] c = 13 -> <<92, 114>>
            [] c = 0  -> <<92, 48>>
            [] c # 0 /\ (c < 32 \/ c = 127) /\ c \notin {9, 10, 13} -> <<92, 117, 123>> \o HexN(c) \o <<125>>
            [] OTHER  -> <<c>>
Quote(t) == <<34>> \o FoldLeft(LAMBDA a, c : a \o Esc(c), <<>>, t) \o <<34>>

\* texts of 25 bytes and more are cut at the first character boundary from
\* byte 21 on
Abbr(t) == IF BLen(t) < 25 THEN t
           ELSE LET B == Range(Bounds(t))
                    cut == CHOOSE b \in B : b >= 21 /\ \A o \in B : o >= 21 => b <= o
                IN Slice(t, 0, cut) \o AMore

RRange(s, e) == Dec(s) \o ADots \o Dec(e)
RKind(lg, k) == IF lg = 0 THEN ASynKind \o Dec(k) \o <<41>> ELSE AKind \o Dec(k)

\* debug form of one element; lg: language, k: its translated kind
DebugEl(lg, k, n, s, e, t) ==
    IF lg = 0 THEN ASynNode \o RKind(0, k) \o ARange \o RRange(s, e) \o AEnd
    ELSE RKind(lg, k) \o AAt \o RRange(s, e) \o (IF n = 1 THEN <<>> ELSE <<32>> \o Quote(Abbr(t)))

RECURSIVE Spaces(_)
Spaces(d) == IF d = 0 THEN <<>> ELSE <<32, 32>> \o Spaces(d - 1)

\* pretty debug form of a subtree (typed languages); TrK translates kinds
PrettyEl(S_, x, lg, TrK(_)) ==
    FoldLeft(LAMBDA a, f : a \o Spaces(f.d) \o DebugEl(lg, TrK(f.k), f.n, f.s, f.e, f.t) \o <<10>>,
             <<>>, Flat(S_, x))

\* serialised subtree, flattened in document order with depths
SerEl(S_, x, lg, TrK(_)) ==
    MapSeq(Flat(S_, x), LAMBDA f : [n |-> f.n, k |-> RKind(lg, TrK(f.k)), d |-> f.d,
                                    s |-> f.s, e |-> f.e, t |-> f.t])

\* a form written to a writer that refuses, once, what would take it beyond
\* cap bytes, or the call of a certain number (rf: whether it has refused):
\* all of it, or an error and a beginning of it
Written(whole, cap, call, rf, st, o) ==
    /\ call = 0 => rf = IF BLen(whole) <= cap THEN 0 ELSE 1
    /\ IF rf = 0 THEN st = "ok" /\ o = whole
       ELSE /\ st = "err"
            /\ BLen(o) <= cap /\ Len(o) <= Len(whole)
            /\ o = SubSeq(whole, 1, Len(o))

\* debug form of green elements
GDebug(g) ==
    IF g.n = 1 THEN AGreenNode \o RKind(0, g.k) \o ALen \o Dec(GLen(g)) \o AKids \o Dec(Len(g.c)) \o AEnd
    ELSE AGreenTok \o RKind(0, g.k) \o ATxt \o Quote(g.t) \o AEnd
=============================================================================
