-------------------------------- MODULE Txt --------------------------------
(***************************************************************************)
(* Text.  A text is a sequence of Unicode code points; rowan measures it   *)
(* in UTF-8 bytes.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

\* UTF-8 width of a code point
CpLen(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

\* bytes of a text
BLen(t) == FoldLeft(LAMBDA a, c : a + CpLen(c), 0, t)

\* byte offsets of the character boundaries of a text, in order: Len(t)+1 of them
Bounds(t) == FoldLeft(LAMBDA a, c : Append(a, a[Len(a)] + CpLen(c)), <<0>>, t)

IsBound(t, o) == LET b == Bounds(t) IN \E i \in DOMAIN b : b[i] = o

\* number of characters in front of the boundary at byte offset o
CharsBefore(t, o) == LET b == Bounds(t) IN (CHOOSE i \in DOMAIN b : b[i] = o) - 1

\* the text between the boundaries at byte offsets s and e
Slice(t, s, e) == SubSeq(t, CharsBefore(t, s) + 1, CharsBefore(t, e))

\* all texts one after the other
Cat(ts) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ts)

Sum(ns) == FoldLeft(LAMBDA a, b : a + b, 0, ns)

MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Some(x) == <<x>>
None == <<>>
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
=============================================================================
