------------------------------- MODULE MC_Mat -------------------------------
(***************************************************************************)
(* All behaviours of Mat for one small kind of matrix, and the laws the     *)
(* operations are claimed to obey: one handle and every re-arrangement     *)
(* (ViewOps), or several handles that share, copy and write (ShareOps).    *)
(***************************************************************************)
EXTENDS Mat
CONSTANTS Sizes, Channels, H, Ops

Boxes(sz) == {<<a, b>> \in [1..Len(sz) -> 0..2] \X [1..Len(sz) -> 1..3] : \A i \in 1..Len(sz) : a[i] < b[i] /\ b[i] <= sz[i]}
SeqOf(S) == LET Q[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o Q[T \ {x}] IN Q[S]

Commands ==
  {[op |-> "new", d |-> d, dep |-> "u8", ch |-> Channels, sz |-> Sizes, v |-> [p \in 1..(Prod(Sizes) * Channels) |-> p]] : d \in H}
  \cup UNION {LET sz == mats[s].sz dims == Len(sz) ch == mats[s].ch IN
       {[op |-> "alias", d |-> d, s |-> s] : d \in H}
  \cup {[op |-> "clone", d |-> d, s |-> s] : d \in H}
  \cup {[op |-> "sub", d |-> d, s |-> s, a |-> x[1], b |-> x[2]] : d \in H, x \in Boxes(sz)}
  \cup {[op |-> "flip", d |-> d, s |-> s, a |-> SeqOf(D)] : d \in H, D \in SUBSET (1..dims)}
  \cup {[op |-> "swap", d |-> d, s |-> s, k |-> k, n |-> n] : d \in H, k \in 1..dims, n \in 1..dims}
  \cup {[op |-> "stride", d |-> d, s |-> s, a |-> a] : d \in H, a \in [1..dims -> {1, 2}]}
  \cup {[op |-> "subch", d |-> d, s |-> s, a |-> <<x, x + 1>>] : d \in H, x \in 0..(ch - 1)}
  \cup {[op |-> "reshape", d |-> d, s |-> s, sz |-> <<(Prod(sz) * ch) \div c>>, ch |-> c] : d \in H, c \in {1, ch}}
  \cup {[op |-> "comb", d |-> d, s |-> s, k |-> 1, n |-> 2] : d \in H}
  \cup {[op |-> "poke", s |-> s, a |-> [i \in 1..dims |-> 0], k |-> 0, v |-> <<9>>]}
  \cup {[op |-> "copyfrom", d |-> d, s |-> s] : d \in H}
  \cup {[op |-> "drop", s |-> s]} : s \in DOMAIN mats}

MNext == \E c \in Commands : c.op \in Ops /\ Enabled(c) /\ Do(c)
MSpec == Init /\ [][MNext]_vars

\* Re-arranging laws, for every view that ever arises.
Laws == \A h \in DOMAIN mats :
  LET v == mats[h] dims == Len(v.sz) zero == [i \in 1..dims |-> 0]
  IN /\ \A D \in SUBSET (1..dims) : FlipView(FlipView(v, D), D) = v
     /\ \A D, E \in SUBSET (1..dims) : FlipView(FlipView(v, D), E) = FlipView(v, (D \cup E) \ (D \cap E))
     /\ \A a, b \in 1..dims : SwapView(SwapView(v, a, b), a, b) = v
     /\ \A D \in SUBSET (1..dims), a, b \in 1..dims :
          SwapView(FlipView(v, D), a, b) = FlipView(SwapView(v, a, b), {IF i = a THEN b ELSE IF i = b THEN a ELSE i : i \in D})
     /\ SubView(v, zero, v.sz) = v
     /\ \A x \in Boxes(v.sz) : LET w == SubView(v, x[1], x[2]) IN
          \A y \in Boxes(w.sz) : SubView(w, y[1], y[2]) = SubView(v, [i \in 1..dims |-> x[1][i] + y[1][i]], [i \in 1..dims |-> x[1][i] + y[2][i]])
     /\ StrideView(v, [i \in 1..dims |-> 1]) = v
     /\ \A k \in 1..dims : Resized(Resized(v, SplitSizes(v.sz, k, <<1, v.sz[k]>>), v.ch), v.sz, v.ch) = v
     /\ Elems(v) = Len(AllIdx(v.sz)) /\ \A e \in 0..(Elems(v) - 1) : Flat(v.sz, IdxOf(v.sz, e)) = e
     /\ Ascending(v) => Mergeable(v, 1, dims)

\* A write is seen through a view exactly where that view contains a written cell; a clone is never affected.
WriteSeen == [][\A h \in DOMAIN mats \cap DOMAIN mats' :
   (mats'[h] = mats[h] /\ DOMAIN mats' = DOMAIN mats /\ mem' # mem) =>
     \A g \in DOMAIN mats \cap DOMAIN mats' : (mats'[g].st = mats[g].st /\ Disjoint(mats[g], mats[h]) /\ Val(mats[h])' # Val(mats[h])) =>
        (mats[g].st # mats[h].st => Val(mats[g])' = Val(mats[g]))]_vars
\* Views of one store never disagree about a common cell.
Coherent == \A g, h \in DOMAIN mats : mats[g].st = mats[h].st =>
   \A p \in 1..Len(mats[g].at), q \in 1..Len(mats[h].at) : mats[g].at[p] = mats[h].at[q] => Vals(g)[p] = Vals(h)[q]
\* References count every handle once.
Counted == LET own == {h \in DOMAIN mats : mats[h].own} IN
   \A h \in own : References(mats, h) = Cardinality({g \in own : mats[g].st = mats[h].st}) /\ References(mats, h) >= 1
Sz == <<2, 2>>
Sz3 == <<3, 2>>
Sz222 == <<2, 2, 2>>
Sz1 == <<3>>
Sz2 == <<2>>
ViewOps == {"new", "sub", "flip", "swap", "stride", "subch", "reshape", "comb"}
ShareOps == {"new", "alias", "clone", "sub", "flip", "poke", "copyfrom", "drop"}
=============================================================================
