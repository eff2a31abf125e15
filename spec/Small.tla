------------------------------- MODULE Small -------------------------------
(***************************************************************************)
(* All small trees over a set of leaves and node kinds.                    *)
(***************************************************************************)
EXTENDS Green

\* leaves used for exhaustive enumeration: empty tokens, one and two byte
\* tokens, childless nodes come with the node kinds
LeafEmpty == GTok(2, <<>>)
LeafA     == GTok(2, <<97>>)
LeafE     == GTok(3, <<233>>)      \* two bytes

RECURSIVE Elems(_, _, _)
RECURSIVE Forests(_, _, _)
\* elements of exactly n elements
Elems(n, leaves, kinds) ==
    (IF n = 1 THEN leaves ELSE {}) \cup
    { GNode(k, f) : k \in kinds, f \in Forests(n - 1, leaves, kinds) }
\* sequences of elements with n elements together
Forests(n, leaves, kinds) ==
    IF n = 0 THEN {<<>>}
    ELSE UNION { { <<x>> \o f : x \in Elems(i, leaves, kinds), f \in Forests(n - i, leaves, kinds) }
                 : i \in 1..n }

\* trees of at most n elements
Trees(n, leaves, kinds) ==
    UNION { { t \in Elems(i, leaves, kinds) : t.n = 1 } : i \in 1..n }
=============================================================================
