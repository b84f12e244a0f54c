------------------------------ MODULE MatIndex ------------------------------
(***************************************************************************)
(* Index arithmetic of n-dimensional matrices of multi-channel elements.   *)
(*                                                                         *)
(* A view is a record                                                      *)
(*   st   the store it lives in                                            *)
(*   own  whether the view shares the ownership of the store               *)
(*   dep  the depth: one of "u8" .. "f64"                                  *)
(*   ch   channels per element                                             *)
(*   sz   the sizes of the dimensions                                      *)
(*   at   the cells of the store the view consists of, in the order of     *)
(*        access: row-major over the elements, channels innermost          *)
(* Every operation that re-arranges a matrix without copying is a map      *)
(* between such sequences; nothing here knows steps or pointers.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Prod(s) == ProdFrom(s, 1)

\* Element numbers (from 0) and index tuples.
IdxOf(sz, e) == [i \in 1..Len(sz) |-> (e \div ProdFrom(sz, i + 1)) % sz[i]]
RECURSIVE FlatFrom(_, _, _, _)
FlatFrom(sz, idx, i, acc) == IF i > Len(sz) THEN acc ELSE FlatFrom(sz, idx, i + 1, acc * sz[i] + idx[i])
Flat(sz, idx) == FlatFrom(sz, idx, 1, 0)
Inside(sz, idx) == Len(idx) = Len(sz) /\ \A i \in 1..Len(sz) : idx[i] >= 0 /\ idx[i] < sz[i]
AllIdx(sz) == [k \in 1..Prod(sz) |-> IdxOf(sz, k - 1)]

Elems(v) == Prod(v.sz)
Cells(v) == Elems(v) * v.ch
\* The cell of channel c of element e (both from 0).
CellAt(v, e, c) == v.at[e * v.ch + c + 1]

(***************************************************************************)
(* A view with sizes sz and channels lo .. lo+n-1 of v, where the element  *)
(* with index i is the element of v with index G(i).                       *)
(***************************************************************************)
ElemView(v, sz, lo, n, G(_)) ==
  [v EXCEPT !.sz = sz, !.ch = n,
            !.at = TLCEval([p \in 1..(Prod(sz) * n) |->
                             CellAt(v, Flat(v.sz, G(IdxOf(sz, (p - 1) \div n))), lo + ((p - 1) % n))])]

SubView(v, lo, hi) ==
  ElemView(v, [i \in 1..Len(v.sz) |-> hi[i] - lo[i]], 0, v.ch, LAMBDA x : [i \in 1..Len(x) |-> x[i] + lo[i]])
FlipView(v, D) ==
  ElemView(v, v.sz, 0, v.ch, LAMBDA x : [i \in 1..Len(x) |-> IF i \in D THEN v.sz[i] - 1 - x[i] ELSE x[i]])
Swapped(s, a, b) == [i \in 1..Len(s) |-> IF i = a THEN s[b] ELSE IF i = b THEN s[a] ELSE s[i]]
SwapView(v, a, b) == ElemView(v, Swapped(v.sz, a, b), 0, v.ch, LAMBDA x : Swapped(x, a, b))
StrideView(v, st) ==
  ElemView(v, [i \in 1..Len(v.sz) |-> (v.sz[i] + st[i] - 1) \div st[i]], 0, v.ch, LAMBDA x : [i \in 1..Len(x) |-> x[i] * st[i]])
ChannelView(v, lo, hi) == ElemView(v, v.sz, lo, hi - lo, LAMBDA x : x)

\* The same cells in the same order under other sizes.
Resized(v, sz, ch) == [v EXCEPT !.sz = sz, !.ch = ch]
SplitSizes(sz, k, parts) == SubSeq(sz, 1, k - 1) \o parts \o SubSeq(sz, k + 1, Len(sz))
CombinedSizes(sz, k, n) == SubSeq(sz, 1, k - 1) \o <<Prod(SubSeq(sz, k, k + n - 1))>> \o SubSeq(sz, k + n, Len(sz))

(***************************************************************************)
(* Layout, as far as it can be seen from outside.                          *)
(***************************************************************************)
Ascending(v) == \A p \in 1..(Len(v.at) - 1) : v.at[p + 1] = v.at[p] + 1
\* The elements descend while the channels inside of one ascend.
Descending(v) ==
  /\ \A e \in 0..(Elems(v) - 1), c \in 0..(v.ch - 2) : CellAt(v, e, c + 1) = CellAt(v, e, c) + 1
  /\ \A e \in 0..(Elems(v) - 2) : CellAt(v, e + 1, 0) = CellAt(v, e, 0) - v.ch
\* Distance in cells of neighbours in dimension i (for sizes above one).
Stride(v, i) == CellAt(v, ProdFrom(v.sz, i + 1), 0) - CellAt(v, 0, 0)
\* Dimensions k .. k+n-1 can be walked as one.
Mergeable(v, k, n) ==
  LET big == {i \in k..(k + n - 1) : v.sz[i] > 1}
  IN \A i \in big : \A j \in big :
       (i < j /\ ~\E m \in big : i < m /\ m < j) => Stride(v, i) = Stride(v, j) * v.sz[j]

Disjoint(v, w) == v.st # w.st \/ {v.at[i] : i \in 1..Len(v.at)} \cap {w.at[i] : i \in 1..Len(w.at)} = {}
SameCells(v, w) == v.st = w.st /\ v.at = w.at
=============================================================================
