------------------------- MODULE MC_ComponentTree -------------------------
(***************************************************************************)
(* Every image of a small size with a few levels (and with masked pixels): *)
(* the construction of the component tree that judges the code agrees with *)
(* the definition of the extremal regions.                                 *)
(***************************************************************************)
EXTENDS ComponentTree
CONSTANTS R, C, Levels, Conn
VARIABLE px
Init == px \in [1..(R * C) -> Levels]
Spec == Init /\ [][FALSE]_px
Adj == Adjacency(R, C, Conn)
Agree == TreeIsDefinition(px, Adj)
Sizes == SizesAreRight(px, Adj)
Parents == ParentIsSmallestSuperset(px, Adj)
Nested == Laminar(px, Adj)
=============================================================================
