------------------------------ MODULE TextView ------------------------------
(***************************************************************************)
(* SyntaxText: a view of the text below a node, or of a slice of one.      *)
(* A view stands for a text; all offsets are on character boundaries.      *)
(***************************************************************************)
EXTENDS Render

\* One slicing step q = [f, s, e]: form of range and its ends.  The result
\* is <<text>>, or <<>> when the range does not lie within the text.
SliceStart(t, q) == IF q.f \in {"to", "full"} THEN 0 ELSE q.s
SliceEnd(t, q)   == IF q.f \in {"from", "full"} THEN BLen(t) ELSE q.e
SliceView(t, q) ==
    LET s == SliceStart(t, q)
        e == SliceEnd(t, q)
    IN IF s > e \/ e > BLen(t) THEN None ELSE Some(Slice(t, s, e))

\* a chain of slicing steps
View(t, qs) == FoldLeft(LAMBDA a, q : IF a = None THEN None ELSE SliceView(a[1], q), Some(t), qs)

RECURSIVE FindFrom(_, _, _, _)
FindFrom(t, c, i, o) == IF i > Len(t) THEN None
                        ELSE IF t[i] = c THEN Some(o) ELSE FindFrom(t, c, i + 1, o + CpLen(t[i]))
Find(t, c) == FindFrom(t, c, 1, 0)       \* byte offset of the first c
HasChar(t, c) == \E i \in DOMAIN t : t[i] = c
CharAt(t, o) == IF o >= BLen(t) THEN None ELSE Some(t[CharsBefore(t, o) + 1])

B01(b) == IF b THEN 1 ELSE 0
=============================================================================
