--------------------------- MODULE ComponentTree ---------------------------
(***************************************************************************)
(* The component tree of a gray image: its extremal regions and their      *)
(* inclusion order.  Two equivalent views are given.                       *)
(*                                                                         *)
(*  - the DEFINITION (ExtremalRegions): for every gray level g, the        *)
(*    connected components of the pixels with value <= g that contain a    *)
(*    pixel of value g.  MC_ComponentTree.cfg checks with TLC that         *)
(*    both views agree on every small image;                               *)
(*  - a CONSTRUCTION (Tree): pixels are added in ascending order of value, *)
(*    components are united, a node is created for every component touched *)
(*    at a level.  It is what TLC evaluates when it judges the results of  *)
(*    the code, because it also copes with images of thousands of pixels.  *)
(*                                                                         *)
(* An image is a sequence px of values in 0..256 in row-major order, its   *)
(* pixels are numbered 1..rows*cols.  256 is the level of a pixel that is  *)
(* masked out: it lies above every gray level, in either polarity, so a    *)
(* region that contains such a pixel is the root of the tree.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Masked == 256

Row(C, p) == (p - 1) \div C
Col(C, p) == (p - 1) % C

\* Neighbours of pixel p in an R x C image with 4 or 8 neighbours.
Neighbours(R, C, conn, p) ==
  LET y == Row(C, p)
      x == Col(C, p)
      up == y > 0
      dn == y < R - 1
      lf == x > 0
      rt == x < C - 1
      straight == (IF up THEN {p - C} ELSE {}) \cup (IF dn THEN {p + C} ELSE {})
                  \cup (IF lf THEN {p - 1} ELSE {}) \cup (IF rt THEN {p + 1} ELSE {})
  IN IF conn = 4 THEN straight
     ELSE straight \cup (IF up /\ lf THEN {p - C - 1} ELSE {}) \cup (IF up /\ rt THEN {p - C + 1} ELSE {})
                   \cup (IF dn /\ lf THEN {p + C - 1} ELSE {}) \cup (IF dn /\ rt THEN {p + C + 1} ELSE {})

Adjacency(R, C, conn) == [p \in 1..(R * C) |-> Neighbours(R, C, conn, p)]

(***************************************************************************)
(* The definition.                                                         *)
(***************************************************************************)
RECURSIVE Reach(_, _, _)
\* The pixels of S reachable from the set F along adj.
Reach(adj, S, F) ==
  LET G == F \cup (UNION {adj[p] : p \in F} \cap S)
  IN IF G = F THEN F ELSE Reach(adj, S, G)

Below(px, g) == {p \in DOMAIN px : px[p] <= g}

ExtremalRegions(px, adj) ==
  UNION { {[g |-> g, pix |-> Reach(adj, Below(px, g), {p})] : p \in {q \in DOMAIN px : px[q] = g}}
          : g \in {px[p] : p \in DOMAIN px} }

(***************************************************************************)
(* The construction.  A state is                                           *)
(*   uf    union-find forest over the pixels added so far (0: not added)   *)
(*   sz    size of the component, at its root                              *)
(*   kids  the maximal nodes inside the component, at its root             *)
(*   own   the pixels of the level under construction, at the root         *)
(*   nodes the nodes created so far: [g, s, kids, own], ascending in g     *)
(***************************************************************************)
RECURSIVE Find(_, _)
Find(uf, p) == LET q == uf[p] IN IF q = p THEN p ELSE Find(uf, q)

Unite(st, p, q) ==
  LET a == Find(st.uf, p)
      b == Find(st.uf, q)
  IN IF a = b THEN st
     ELSE LET r == IF st.sz[a] >= st.sz[b] THEN a ELSE b
              o == IF r = a THEN b ELSE a
          IN [st EXCEPT !.uf = [@ EXCEPT ![o] = r],
                        !.sz = [@ EXCEPT ![r] = st.sz[a] + st.sz[b]],
                        !.kids = [@ EXCEPT ![r] = st.kids[a] \cup st.kids[b]],
                        !.own = [@ EXCEPT ![r] = st.own[a] \cup st.own[b]]]

AddPixel(st, adj, p) ==
  LET st1 == [st EXCEPT !.uf = [@ EXCEPT ![p] = p],
                        !.sz = [@ EXCEPT ![p] = 1],
                        !.own = [@ EXCEPT ![p] = {p}]]
  IN FoldSet(LAMBDA q, s : IF s.uf[q] = 0 THEN s ELSE Unite(s, p, q), st1, adj[p])

CloseRoot(st, g, r) ==
  [st EXCEPT !.nodes = Append(@, [g |-> g, s |-> st.sz[r], kids |-> st.kids[r], own |-> st.own[r]]),
             !.kids = [@ EXCEPT ![r] = {Len(st.nodes) + 1}],
             !.own = [@ EXCEPT ![r] = {}]]

AddLevel(st, adj, g, pixels) ==
  LET st1 == FoldLeft(LAMBDA s, p : AddPixel(s, adj, p), st, pixels)
      roots == {Find(st1.uf, pixels[i]) : i \in DOMAIN pixels}
  IN FoldSet(LAMBDA r, s : CloseRoot(s, g, r), st1, roots)

Zero(n, v) == TLCEval([p \in 1..n |-> v])

\* Pixels by value: Buckets[g + 1] is the sequence of the pixels of value g.
Buckets(px) ==
  FoldLeftDomain(LAMBDA b, p : [b EXCEPT ![px[p] + 1] = Append(@, p)],
                 TLCEval([g \in 1..257 |-> <<>>]), px)

EmptyBuild(n) == [uf |-> Zero(n, 0), sz |-> Zero(n, 0), kids |-> Zero(n, {}), own |-> Zero(n, {}), nodes |-> <<>>]

Build(px, adj) ==
  LET b == Buckets(px)
  IN FoldLeftDomain(LAMBDA st, g : IF b[g] = <<>> THEN st ELSE AddLevel(st, adj, g - 1, b[g]),
                    EmptyBuild(Len(px)), b)

\* The tree: nodes in ascending gray order with their parents (0: none).
Tree(px, adj) ==
  LET nodes == Build(px, adj).nodes
      par == FoldLeftDomain(LAMBDA f, i : FoldSet(LAMBDA k, h : [h EXCEPT ![k] = i], f, nodes[i].kids),
                            Zero(Len(nodes), 0), nodes)
  IN TLCEval([n |-> Len(nodes),
              g |-> [i \in 1..Len(nodes) |-> nodes[i].g],
              s |-> [i \in 1..Len(nodes) |-> nodes[i].s],
              par |-> par,
              kids |-> [i \in 1..Len(nodes) |-> nodes[i].kids],
              own |-> [i \in 1..Len(nodes) |-> nodes[i].own]])

RECURSIVE Pixels(_, _)
Pixels(t, i) == t.own[i] \cup UNION {Pixels(t, k) : k \in t.kids[i]}

\* Bounding rectangle [left, top, width, height] (0-based) of a pixel set.
Rect(C, pix) ==
  LET xs == {Col(C, p) : p \in pix}
      ys == {Row(C, p) : p \in pix}
  IN <<Min(xs), Min(ys), Max(xs) - Min(xs) + 1, Max(ys) - Min(ys) + 1>>

(***************************************************************************)
(* What the two views must satisfy (checked by MC_ComponentTree).          *)
(***************************************************************************)
TreeIsDefinition(px, adj) ==
  LET t == Tree(px, adj)
  IN {[g |-> t.g[i], pix |-> Pixels(t, i)] : i \in 1..t.n} = ExtremalRegions(px, adj)

SizesAreRight(px, adj) ==
  LET t == Tree(px, adj) IN \A i \in 1..t.n : t.s[i] = Cardinality(Pixels(t, i))

ParentIsSmallestSuperset(px, adj) ==
  LET t == Tree(px, adj)
      P == [i \in 1..t.n |-> Pixels(t, i)]
      sup(i) == {j \in 1..t.n : P[i] \subseteq P[j] /\ P[i] # P[j]}
  IN \A i \in 1..t.n : /\ (t.par[i] = 0) = (sup(i) = {})
                       /\ t.par[i] # 0 => t.par[i] \in sup(i) /\ \A j \in sup(i) : P[t.par[i]] \subseteq P[j]

Laminar(px, adj) ==
  \A a, b \in ExtremalRegions(px, adj) :
    \/ a.pix \cap b.pix = {} \/ a.pix \subseteq b.pix \/ b.pix \subseteq a.pix
=============================================================================
