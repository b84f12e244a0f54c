-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* The matrix class mt_mat as a state machine.                             *)
(*                                                                         *)
(*   mem    store -> sequence of cells                                     *)
(*   mats   handle -> view (MatIndex)                                      *)
(*                                                                         *)
(* A command is a record c with a field op; Enabled(c) is what a caller    *)
(* has to respect, Do(c) what happens.  c.d is the handle that receives a  *)
(* result, c.s and c.t are operands, c.f says by which of the equivalent   *)
(* C++ signatures the driver does it (the specification does not care).    *)
(***************************************************************************)
EXTENDS MatIndex, MatValue

VARIABLES mem, mats
vars == <<mem, mats>>

Init == mem = <<>> /\ mats = <<>>

(***************************************************************************)
(* Building blocks                                                         *)
(***************************************************************************)
Live(h) == h \in DOMAIN mats
Fresh == CHOOSE x \in 1..(Cardinality(DOMAIN mem) + 1) : x \notin DOMAIN mem /\ \A y \in 1..(x - 1) : y \in DOMAIN mem
Val(v) == [p \in 1..Len(v.at) |-> mem[v.st][v.at[p]]]
Vals(h) == Val(mats[h])
Restrict(f, S) == [x \in (DOMAIN f \cap S) |-> f[x]]
Stores(m) == {m[h].st : h \in DOMAIN m}

\* The next state: the handles are m, the stores they use are kept.
Become(m, me) == mats' = m /\ mem' = TLCEval(Restrict(me, Stores(m)))

FullView(st, own, dep, ch, sz) ==
  [st |-> st, own |-> own, dep |-> dep, ch |-> ch, sz |-> sz, at |-> [p \in 1..(Prod(sz) * ch) |-> p]]
NewMat(d, dep, ch, sz, vals) ==
  LET st == Fresh
  IN Become((d :> FullView(st, TRUE, dep, ch, sz)) @@ mats, (st :> TLCEval(vals)) @@ mem)
View(d, v) == Become((d :> v) @@ mats, mem)
\* The cells of v become vals.
Poke(m, v, vals) ==
  LET pos == [x \in {v.at[p] : p \in 1..Len(v.at)} |-> CHOOSE p \in 1..Len(v.at) : v.at[p] = x]
  IN [m EXCEPT ![v.st] = TLCEval([x \in 1..Len(@) |-> IF x \in DOMAIN pos THEN vals[pos[x]] ELSE @[x]])]
Write(v, vals) == mem' = Poke(mem, v, vals) /\ UNCHANGED mats

\* One value for all channels, or one per channel.
Spread(v, n, ch) == [p \in 1..(n * ch) |-> IF Len(v) = 1 THEN v[1] ELSE v[((p - 1) % ch) + 1]]
SpreadOk(v, dep, ch) == Len(v) \in {1, ch} /\ \A i \in 1..Len(v) : Fits(dep, v[i])
SizesOk(sz) == Len(sz) \in 1..4 /\ (\A i \in 1..Len(sz) : sz[i] >= 1) /\ Prod(sz) <= 64
ShapeOk(dep, ch, sz) == dep \in Depths /\ ch \in 1..8 /\ SizesOk(sz) /\ Prod(sz) * ch <= 96
SameShape(v, w) == v.sz = w.sz /\ v.ch = w.ch
Safe(v, w) == Disjoint(v, w) \/ SameCells(v, w)

\* create(): keeps the memory when nothing about the shape changes.
Create(d, dep, ch, sz, vals) ==
  IF Live(d) /\ mats[d].dep = dep /\ mats[d].ch = ch /\ mats[d].sz = sz
  THEN Write(mats[d], vals)
  ELSE NewMat(d, dep, ch, sz, vals)

(***************************************************************************)
(* What a caller has to respect                                            *)
(***************************************************************************)
V(c) == mats[c.s]
W(c) == mats[c.t]
WrapAt(c) == [p \in 1..(Prod(c.sz) * c.ch) |->
  LET i == IdxOf(c.sz, (p - 1) \div c.ch)
      Sum[k \in 0..Len(i)] == IF k = 0 THEN 0 ELSE Sum[k - 1] + i[k] * c.a[k]
  IN c.k + Sum[Len(i)] + ((p - 1) % c.ch) + 1]
BiasAt(v, w, p) == LET i == IdxOf(v.sz, (p - 1) \div v.ch)
                   IN Flat(w.sz, [k \in 1..Len(i) |-> i[k] % w.sz[k]]) * w.ch + ((p - 1) % v.ch) + 1

\* Sizes and order of a concatenation along dimension k.
MergeSizes(ss, k) == [mats[ss[1]].sz EXCEPT ![k] = LET Sum[i \in 0..Len(ss)] == IF i = 0 THEN 0 ELSE Sum[i - 1] + mats[ss[i]].sz[k] IN Sum[Len(ss)]]
MergeChannels(ss) == LET Sum[i \in 0..Len(ss)] == IF i = 0 THEN 0 ELSE Sum[i - 1] + mats[ss[i]].ch IN Sum[Len(ss)]

\* The elements (0..) of v that are reduced into element e of the result.
ReducedSizes(v, k) == IF k = 0 THEN [i \in 1..Len(v.sz) |-> 1] ELSE [v.sz EXCEPT ![k] = 1]
Group(v, k, e) ==
  IF k = 0 THEN [i \in 1..Elems(v) |-> i - 1]
  ELSE LET base == IdxOf(ReducedSizes(v, k), e) IN [i \in 1..v.sz[k] |-> Flat(v.sz, [base EXCEPT ![k] = i - 1])]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
MaxSeq(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= x
MinSeq(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] >= x
ReduceOne(o, s) ==
  LET n == Len(s)
      mean == Quot(SumSeq(s), n)
      sq == SumSeq([i \in 1..n |-> Quot((s[i] - mean) * (s[i] - mean), 16)])
  IN CASE o = "sum" -> SumSeq(s) [] o = "mean" -> mean [] o = "max" -> MaxSeq(s) [] o = "min" -> MinSeq(s)
       [] o = "var" -> Quot(sq, n) [] o = "uvar" -> Quot(sq, n - 1)
       [] o = "std" -> Root(Quot(sq, n) * 16) [] o = "ustd" -> Root(Quot(sq, n - 1) * 16)
ReduceOk(dep, o, s) ==
  LET n == Len(s)
      mean == Quot(SumSeq(s), n)
      sq == SumSeq([i \in 1..n |-> Quot((s[i] - mean) * (s[i] - mean), 16)])
      m == IF o \in {"uvar", "ustd"} THEN n - 1 ELSE n
  IN CASE o = "sum" -> Fits(dep, SumSeq(s))
       [] o \in {"max", "min"} -> TRUE
       [] o = "mean" -> Divides(n, SumSeq(s))
       [] OTHER -> /\ Divides(n, SumSeq(s)) /\ m >= 1
                   /\ \A i \in 1..n : Abs(s[i] - mean) < 4000 /\ Divides(16, (s[i] - mean) * (s[i] - mean))
                   /\ Divides(m, sq) /\ Fits(dep, Quot(sq, m))
                   /\ (o \in {"std", "ustd"} => Quot(sq, m) <= 2000 /\ Root(Quot(sq, m) * 16) >= 0)

Enabled(c) ==
  /\ c.op \notin {"new", "fill", "wrap", "create", "merge", "mergech", "total"} => Live(c.s)
  /\ CASE c.op = "new" -> ShapeOk(c.dep, c.ch, c.sz) /\ Len(c.v) = Prod(c.sz) * c.ch /\ (\A i \in 1..Len(c.v) : Fits(c.dep, c.v[i]))
       [] c.op = "fill" -> ShapeOk(c.dep, c.ch, c.sz) /\ SpreadOk(c.v, c.dep, c.ch)
       [] c.op = "create" -> ShapeOk(c.dep, c.ch, c.sz) /\ SpreadOk(c.v, c.dep, c.ch)
       [] c.op = "like" -> SpreadOk(c.v, V(c).dep, V(c).ch)
       [] c.op = "wrap" -> /\ ShapeOk(c.dep, c.ch, c.sz) /\ Len(c.a) = Len(c.sz) /\ Len(c.v) <= 200
                           /\ (\A i \in 1..Len(c.v) : Fits(c.dep, c.v[i]))
                           /\ LET at == WrapAt(c) IN /\ \A p \in 1..Len(at) : at[p] \in 1..Len(c.v)
                                                     /\ Cardinality({at[p] : p \in 1..Len(at)}) = Len(at)
       [] c.op = "alias" -> TRUE
       [] c.op = "sub" -> Len(c.a) = Len(V(c).sz) /\ Len(c.b) = Len(c.a) /\ \A i \in 1..Len(c.a) : 0 <= c.a[i] /\ c.a[i] < c.b[i] /\ c.b[i] <= V(c).sz[i]
       [] c.op = "flip" -> \A i \in 1..Len(c.a) : c.a[i] \in 1..Len(V(c).sz)
       [] c.op = "swap" -> c.k \in 1..Len(V(c).sz) /\ c.n \in 1..Len(V(c).sz)
       [] c.op = "stride" -> Len(c.a) = Len(V(c).sz) /\ \A i \in 1..Len(c.a) : c.a[i] >= 1
       [] c.op = "subch" -> 0 <= c.a[1] /\ c.a[1] < c.a[2] /\ c.a[2] <= V(c).ch
       [] c.op = "reshape" -> /\ SizesOk(c.sz) /\ c.ch >= 1 /\ Prod(c.sz) * c.ch = Cells(V(c))
                              /\ Ascending(V(c)) \/ Descending(V(c))
       [] c.op = "split" -> c.k \in 1..Len(V(c).sz) /\ Prod(c.a) = V(c).sz[c.k] /\ Len(c.a) >= 1 /\ (\A i \in 1..Len(c.a) : c.a[i] >= 1) /\ Len(V(c).sz) + Len(c.a) - 1 <= 4
       [] c.op = "comb" -> c.k >= 1 /\ c.n >= 1 /\ c.k + c.n - 1 <= Len(V(c).sz)
       [] c.op = "chlast" -> Len(V(c).sz) <= 3
       [] c.op = "lastch" -> LET v == V(c) n == v.sz[Len(v.sz)]
                             IN /\ v.ch = 1 /\ Len(v.sz) >= 2 /\ n <= 8
                                /\ \A e \in 0..(Elems(v) - 1) : ((e + 1) % n) # 0 => CellAt(v, e + 1, 0) = CellAt(v, e, 0) + 1
       [] c.op = "clone" -> TRUE
       [] c.op = "channel" -> c.k \in 0..(V(c).ch - 1)
       [] c.op = "convert" -> c.dep \in Depths /\ (\A p \in 1..Len(V(c).at) : ConvOk(V(c).dep, c.dep, Vals(c.s)[p]))
                              /\ (c.f = "into" => c.d # c.s /\ (Live(c.d) => Safe(mats[c.d], V(c))))
       [] c.op = "copyfrom" -> c.d # c.s /\ (Live(c.d) => Safe(mats[c.d], V(c)))
       [] c.op = "repeat" -> Len(c.a) = Len(V(c).sz) /\ (\A i \in 1..Len(c.a) : c.a[i] >= 1) /\ c.k >= 1
                             /\ ShapeOk(V(c).dep, V(c).ch * c.k, [i \in 1..Len(c.a) |-> V(c).sz[i] * c.a[i]])
       [] c.op = "expand" -> Len(c.a) = Len(V(c).sz) /\ Len(c.b) = Len(c.a) /\ (\A i \in 1..Len(c.a) : c.a[i] >= 0 /\ c.b[i] >= 0)
                             /\ Len(c.v) = V(c).ch /\ SpreadOk(c.v, V(c).dep, V(c).ch)
                             /\ ShapeOk(V(c).dep, V(c).ch, [i \in 1..Len(c.a) |-> V(c).sz[i] + c.a[i] + c.b[i]])
       [] c.op = "merge" -> /\ \A i \in 1..Len(c.ss) : Live(c.ss[i]) /\ mats[c.ss[i]].dep = mats[c.ss[1]].dep /\ mats[c.ss[i]].ch = mats[c.ss[1]].ch
                                 /\ Len(mats[c.ss[i]].sz) = Len(mats[c.ss[1]].sz)
                            /\ c.k \in 1..Len(mats[c.ss[1]].sz)
                            /\ \A i \in 1..Len(c.ss), j \in 1..Len(mats[c.ss[1]].sz) : j # c.k => mats[c.ss[i]].sz[j] = mats[c.ss[1]].sz[j]
                            /\ ShapeOk(mats[c.ss[1]].dep, mats[c.ss[1]].ch, MergeSizes(c.ss, c.k))
       [] c.op = "mergech" -> /\ \A i \in 1..Len(c.ss) : Live(c.ss[i]) /\ mats[c.ss[i]].dep = mats[c.ss[1]].dep /\ mats[c.ss[i]].sz = mats[c.ss[1]].sz
                              /\ ShapeOk(mats[c.ss[1]].dep, MergeChannels(c.ss), mats[c.ss[1]].sz)
       [] c.op = "total" -> /\ Len(c.ss) <= 3
                            /\ \A i \in 1..Len(c.ss) : Live(c.ss[i]) /\ mats[c.ss[i]].dep = mats[c.ss[1]].dep /\ SameShape(mats[c.ss[i]], mats[c.ss[1]])
                            /\ \A p \in 1..Len(mats[c.ss[1]].at) : \A n \in 2..Len(c.ss) :
                                 LET F[i \in 1..Len(c.ss)] == IF i = 1 THEN Vals(c.ss[1])[p] ELSE Op(mats[c.ss[1]].dep, c.o, F[i - 1], Vals(c.ss[i])[p])
                                 IN Fits(mats[c.ss[1]].dep, F[n - 1]) /\ OpOk(mats[c.ss[1]].dep, c.o, F[n - 1], Vals(c.ss[n])[p])
       [] c.op = "set" -> SpreadOk(c.v, V(c).dep, V(c).ch)
       [] c.op = "setat" -> Inside(V(c).sz, c.a) /\ SpreadOk(c.v, V(c).dep, V(c).ch)
       [] c.op = "poke" -> Inside(V(c).sz, c.a) /\ c.k \in 0..(V(c).ch - 1) /\ Fits(V(c).dep, c.v[1])
       [] c.op = "incr" -> Fits(V(c).dep, c.v[1]) /\ Fits(V(c).dep, c.v[1] + Cells(V(c)) * Unit(V(c).dep))
       [] c.op = "setmat" -> Live(c.t) /\ SameShape(V(c), W(c)) /\ Safe(V(c), W(c)) /\ \A p \in 1..Len(W(c).at) : ConvOk(W(c).dep, V(c).dep, Vals(c.t)[p])
       [] c.op \in {"arith", "selfarith"} ->
            /\ Live(c.t) /\ SameShape(V(c), W(c)) /\ V(c).dep = W(c).dep
            /\ (c.op = "selfarith" => Safe(V(c), W(c)))
            /\ \A p \in 1..Len(V(c).at) : OpOk(V(c).dep, c.o, Vals(c.s)[p], Vals(c.t)[p])
       [] c.op \in {"arithv", "selfarithv"} ->
            SpreadOk(c.v, V(c).dep, V(c).ch) /\ LET s == Spread(c.v, Elems(V(c)), V(c).ch) IN \A p \in 1..Len(V(c).at) : OpOk(V(c).dep, c.o, Vals(c.s)[p], s[p])
       [] c.op = "varith" ->
            SpreadOk(c.v, V(c).dep, V(c).ch) /\ LET s == Spread(c.v, Elems(V(c)), V(c).ch) IN \A p \in 1..Len(V(c).at) : OpOk(V(c).dep, c.o, s[p], Vals(c.s)[p])
       [] c.op = "neg" -> Low(V(c).dep) < 0 /\ \A p \in 1..Len(V(c).at) : Fits(V(c).dep, -Vals(c.s)[p])
       [] c.op = "bias" ->
            /\ Live(c.t) /\ V(c).dep = W(c).dep /\ V(c).ch = W(c).ch /\ Len(V(c).sz) = Len(W(c).sz) /\ V(c).dep \notin {"u64", "i64"}
            /\ \A i \in 1..Len(V(c).sz) : Divides(W(c).sz[i], V(c).sz[i])
            /\ \A p \in 1..Len(V(c).at) : OpOk(V(c).dep, c.o, Vals(c.s)[p], Vals(c.t)[BiasAt(V(c), W(c), p)])
       [] c.op = "mask" -> /\ c.t # 0 => (Live(c.t) /\ SameShape(V(c), W(c)) /\ \A p \in 1..Len(W(c).at) : ConvOk(W(c).dep, V(c).dep, Vals(c.t)[p]))
                           /\ Fits(V(c).dep, c.v[1]) /\ Fits(V(c).dep, c.v[2])
       [] c.op \in {"pow", "selfpow"} -> IsFloat(V(c).dep) /\ \A p \in 1..Len(V(c).at) : PowOk(V(c).dep, Vals(c.s)[p], c.k)
       [] c.op \in {"abs", "selfabs"} -> Low(V(c).dep) < 0 /\ \A p \in 1..Len(V(c).at) : Fits(V(c).dep, Abs(Vals(c.s)[p]))
       [] c.op = "reduce" -> /\ IsFloat(V(c).dep) /\ c.k \in 0..Len(V(c).sz)
                             /\ \A e \in 0..(Prod(ReducedSizes(V(c), c.k)) - 1), h \in 0..(V(c).ch - 1) :
                                  LET g == Group(V(c), c.k, e) IN ReduceOk(V(c).dep, c.o, [i \in 1..Len(g) |-> Vals(c.s)[g[i] * V(c).ch + h + 1]])
       [] c.op = "json" -> TRUE
       [] c.op = "drop" -> TRUE
       [] c.op = "ask" -> CASE c.f \in {"get", "ptr", "index"} -> Inside(V(c).sz, c.a)
                            [] c.f \in {"eq", "samesize", "samemem", "same"} -> Live(c.t)
                            [] c.f = "shared" -> Live(c.t) /\ V(c).own /\ W(c).own
                            [] OTHER -> TRUE
       [] OTHER -> FALSE

(***************************************************************************)
(* What happens                                                            *)
(***************************************************************************)
Map(c, dep, F(_)) == NewMat(c.d, dep, V(c).ch, V(c).sz, [p \in 1..Len(V(c).at) |-> F(p)])
WriteMap(c, F(_)) == Write(V(c), TLCEval([p \in 1..Len(V(c).at) |-> F(p)]))

Do(c) ==
  CASE c.op = "new" -> NewMat(c.d, c.dep, c.ch, c.sz, c.v)
    [] c.op = "fill" -> NewMat(c.d, c.dep, c.ch, c.sz, Spread(c.v, Prod(c.sz), c.ch))
    [] c.op = "create" -> Create(c.d, c.dep, c.ch, c.sz, Spread(c.v, Prod(c.sz), c.ch))
    [] c.op = "like" -> NewMat(c.d, V(c).dep, V(c).ch, V(c).sz, Spread(c.v, Elems(V(c)), V(c).ch))
    [] c.op = "wrap" -> Become((c.d :> [FullView(Fresh, c.own, c.dep, c.ch, c.sz) EXCEPT !.at = WrapAt(c)]) @@ mats, (Fresh :> c.v) @@ mem)
    [] c.op = "alias" -> View(c.d, V(c))
    [] c.op = "sub" -> View(c.d, SubView(V(c), c.a, c.b))
    [] c.op = "flip" -> View(c.d, FlipView(V(c), {c.a[i] : i \in 1..Len(c.a)}))
    [] c.op = "swap" -> View(c.d, SwapView(V(c), c.k, c.n))
    [] c.op = "stride" -> View(c.d, StrideView(V(c), c.a))
    [] c.op = "subch" -> View(c.d, ChannelView(V(c), c.a[1], c.a[2]))
    \* descending elements cannot be regrouped in place
    [] c.op = "reshape" -> IF Ascending(V(c)) \/ c.ch = V(c).ch THEN View(c.d, Resized(V(c), c.sz, c.ch))
                           ELSE NewMat(c.d, V(c).dep, c.ch, c.sz, Vals(c.s))
    [] c.op = "split" -> View(c.d, Resized(V(c), SplitSizes(V(c).sz, c.k, c.a), V(c).ch))
    [] c.op = "comb" -> LET sz == CombinedSizes(V(c).sz, c.k, c.n)
                        IN IF Mergeable(V(c), c.k, c.n) THEN View(c.d, Resized(V(c), sz, V(c).ch)) ELSE NewMat(c.d, V(c).dep, V(c).ch, sz, Vals(c.s))
    [] c.op = "chlast" -> View(c.d, Resized(V(c), Append(V(c).sz, V(c).ch), 1))
    [] c.op = "lastch" -> View(c.d, Resized(V(c), SubSeq(V(c).sz, 1, Len(V(c).sz) - 1), V(c).sz[Len(V(c).sz)]))
    [] c.op = "clone" -> NewMat(c.d, V(c).dep, V(c).ch, V(c).sz, Vals(c.s))
    [] c.op = "json" -> NewMat(c.d, V(c).dep, V(c).ch, V(c).sz, Vals(c.s))
    [] c.op = "channel" -> IF c.f = "share" /\ V(c).ch = 1 THEN View(c.d, V(c))
                           ELSE NewMat(c.d, V(c).dep, 1, V(c).sz, Val(ChannelView(V(c), c.k, c.k + 1)))
    [] c.op = "convert" -> LET vals == [p \in 1..Len(V(c).at) |-> Conv(V(c).dep, c.dep, Vals(c.s)[p])]
                           IN IF c.f = "into" THEN Create(c.d, c.dep, V(c).ch, V(c).sz, vals) ELSE NewMat(c.d, c.dep, V(c).ch, V(c).sz, vals)
    [] c.op = "copyfrom" -> Create(c.d, V(c).dep, V(c).ch, V(c).sz, Vals(c.s))
    [] c.op = "repeat" ->
         LET v == V(c) sz == [i \in 1..Len(c.a) |-> v.sz[i] * c.a[i]] n == v.ch * c.k
         IN NewMat(c.d, v.dep, n, sz, [p \in 1..(Prod(sz) * n) |->
              LET i == IdxOf(sz, (p - 1) \div n)
              IN Vals(c.s)[Flat(v.sz, [j \in 1..Len(i) |-> i[j] % v.sz[j]]) * v.ch + (((p - 1) % n) % v.ch) + 1]])
    [] c.op = "expand" ->
         LET v == V(c) sz == [i \in 1..Len(c.a) |-> v.sz[i] + c.a[i] + c.b[i]]
         IN NewMat(c.d, v.dep, v.ch, sz, [p \in 1..(Prod(sz) * v.ch) |->
              LET i == IdxOf(sz, (p - 1) \div v.ch)
                  j == [k \in 1..Len(i) |-> i[k] - c.a[k]]
              IN IF Inside(v.sz, j) THEN Vals(c.s)[Flat(v.sz, j) * v.ch + ((p - 1) % v.ch) + 1] ELSE c.v[((p - 1) % v.ch) + 1]])
    [] c.op = "merge" ->
         IF Len(c.ss) = 1 /\ c.f = "share" THEN View(c.d, mats[c.ss[1]])
         ELSE LET sz == MergeSizes(c.ss, c.k) ch == mats[c.ss[1]].ch
                  Start[i \in 1..(Len(c.ss) + 1)] == IF i = 1 THEN 0 ELSE Start[i - 1] + mats[c.ss[i - 1]].sz[c.k]
              IN NewMat(c.d, mats[c.ss[1]].dep, ch, sz, [p \in 1..(Prod(sz) * ch) |->
                   LET x == IdxOf(sz, (p - 1) \div ch)
                       m == CHOOSE i \in 1..Len(c.ss) : Start[i] <= x[c.k] /\ x[c.k] < Start[i + 1]
                   IN Vals(c.ss[m])[Flat(mats[c.ss[m]].sz, [x EXCEPT ![c.k] = @ - Start[m]]) * ch + ((p - 1) % ch) + 1]])
    [] c.op = "mergech" ->
         IF Len(c.ss) = 1 /\ c.f = "share" THEN View(c.d, mats[c.ss[1]])
         ELSE LET n == MergeChannels(c.ss)
                  Start[i \in 1..(Len(c.ss) + 1)] == IF i = 1 THEN 0 ELSE Start[i - 1] + mats[c.ss[i - 1]].ch
              IN NewMat(c.d, mats[c.ss[1]].dep, n, mats[c.ss[1]].sz, [p \in 1..(Elems(mats[c.ss[1]]) * n) |->
                   LET ch == (p - 1) % n
                       m == CHOOSE i \in 1..Len(c.ss) : Start[i] <= ch /\ ch < Start[i + 1]
                   IN Vals(c.ss[m])[((p - 1) \div n) * mats[c.ss[m]].ch + (ch - Start[m]) + 1]])
    [] c.op = "total" ->
         IF Len(c.ss) = 1 /\ c.f = "share" THEN View(c.d, mats[c.ss[1]])
         ELSE LET v == mats[c.ss[1]]
              IN NewMat(c.d, v.dep, v.ch, v.sz, [p \in 1..Len(v.at) |->
                   LET F[i \in 1..Len(c.ss)] == IF i = 1 THEN Vals(c.ss[1])[p] ELSE Op(v.dep, c.o, F[i - 1], Vals(c.ss[i])[p]) IN F[Len(c.ss)]])
    [] c.op = "set" -> Write(V(c), Spread(c.v, Elems(V(c)), V(c).ch))
    [] c.op = "setat" -> LET v == V(c) e == Flat(v.sz, c.a)
                         IN WriteMap(c, LAMBDA p : IF ((p - 1) \div v.ch) = e THEN (IF Len(c.v) = 1 THEN c.v[1] ELSE c.v[((p - 1) % v.ch) + 1]) ELSE Vals(c.s)[p])
    [] c.op = "poke" -> LET q == Flat(V(c).sz, c.a) * V(c).ch + c.k + 1 IN WriteMap(c, LAMBDA p : IF p = q THEN c.v[1] ELSE Vals(c.s)[p])
    [] c.op = "incr" -> WriteMap(c, LAMBDA p : c.v[1] + Unit(V(c).dep) * (IF c.f = "each" THEN p - 1 ELSE (p - 1) \div V(c).ch))
    [] c.op = "setmat" -> WriteMap(c, LAMBDA p : Conv(W(c).dep, V(c).dep, Vals(c.t)[p]))
    [] c.op = "arith" -> Map(c, V(c).dep, LAMBDA p : Op(V(c).dep, c.o, Vals(c.s)[p], Vals(c.t)[p]))
    [] c.op = "selfarith" -> WriteMap(c, LAMBDA p : Op(V(c).dep, c.o, Vals(c.s)[p], Vals(c.t)[p]))
    [] c.op = "arithv" -> LET s == Spread(c.v, Elems(V(c)), V(c).ch) IN Map(c, V(c).dep, LAMBDA p : Op(V(c).dep, c.o, Vals(c.s)[p], s[p]))
    [] c.op = "selfarithv" -> LET s == Spread(c.v, Elems(V(c)), V(c).ch) IN WriteMap(c, LAMBDA p : Op(V(c).dep, c.o, Vals(c.s)[p], s[p]))
    [] c.op = "varith" -> LET s == Spread(c.v, Elems(V(c)), V(c).ch) IN Map(c, V(c).dep, LAMBDA p : Op(V(c).dep, c.o, s[p], Vals(c.s)[p]))
    [] c.op = "neg" -> Map(c, V(c).dep, LAMBDA p : -Vals(c.s)[p])
    [] c.op = "bias" -> Map(c, V(c).dep, LAMBDA p : Op(V(c).dep, c.o, Vals(c.s)[p], Vals(c.t)[BiasAt(V(c), W(c), p)]))
    [] c.op = "mask" -> Map(c, V(c).dep, LAMBDA p : IF Compare(c.o, Vals(c.s)[p], IF c.t = 0 THEN 0 ELSE Conv(W(c).dep, V(c).dep, Vals(c.t)[p])) THEN c.v[1] ELSE c.v[2])
    [] c.op = "pow" -> Map(c, V(c).dep, LAMBDA p : Pow(V(c).dep, Vals(c.s)[p], c.k))
    [] c.op = "selfpow" -> WriteMap(c, LAMBDA p : Pow(V(c).dep, Vals(c.s)[p], c.k))
    [] c.op = "abs" -> Map(c, V(c).dep, LAMBDA p : Abs(Vals(c.s)[p]))
    [] c.op = "selfabs" -> WriteMap(c, LAMBDA p : Abs(Vals(c.s)[p]))
    [] c.op = "reduce" ->
         LET v == V(c) sz == ReducedSizes(v, c.k)
         IN NewMat(c.d, v.dep, v.ch, sz, [p \in 1..(Prod(sz) * v.ch) |->
              LET g == Group(v, c.k, (p - 1) \div v.ch) IN ReduceOne(c.o, [i \in 1..Len(g) |-> Vals(c.s)[g[i] * v.ch + ((p - 1) % v.ch) + 1]])])
    [] c.op = "drop" -> Become(Restrict(mats, DOMAIN mats \ {c.s}), mem)
    [] c.op = "ask" -> UNCHANGED vars

(***************************************************************************)
(* What a query answers (c.op = "ask").                                    *)
(***************************************************************************)
Flag(b) == IF b THEN 1 ELSE 0
Answers(c, r) ==
  LET v == V(c)
  IN CASE c.f \in {"get", "ptr"} -> LET e == Flat(v.sz, c.a) IN r = [h \in 1..v.ch |-> Vals(c.s)[e * v.ch + h]]
       \* the index of the address of an element
       [] c.f = "index" -> r = c.a
       \* matrices are compared by their bytes, so minus zero may differ from zero
       [] c.f = "eq" -> \/ r = Flag(v.dep = W(c).dep /\ SameShape(v, W(c)) /\ Vals(c.s) = Vals(c.t))
                        \/ r = 0 /\ c.s # c.t /\ IsFloat(v.dep) /\ \E p \in 1..Len(v.at) : Vals(c.s)[p] = 0
       [] c.f = "samesize" -> r = Flag(SameShape(v, W(c)))
       [] c.f = "samemem" -> r = Flag(SameShape(v, W(c)) /\ v.dep = W(c).dep)
       [] c.f = "shared" -> r = Flag(v.st = W(c).st)
       \* two handles for the same view
       [] c.f = "same" -> (r = 1 => (SameCells(v, W(c)) /\ SameShape(v, W(c)))) /\ (v.st # W(c).st => r = 0) /\ (c.s = c.t => r = 1)
       [] c.f = "zero" -> r = Flag(\A p \in 1..Len(v.at) : Vals(c.s)[p] = 0)
       [] c.f = "number" -> r = Elems(v)
       [] c.f = "bytes" -> r = Cells(v) * (CASE v.dep \in {"u8", "i8"} -> 1 [] v.dep \in {"u16", "i16"} -> 2 [] v.dep \in {"u32", "i32", "f32"} -> 4 [] OTHER -> 8)
       \* continuity is promised for what was just allocated and only for consecutive cells
       [] c.f = "cont" -> (r = 1 => (Ascending(v) \/ Descending(v))) /\ ((v.at = [p \in 1..Len(v.at) |-> p] /\ Len(v.at) = Len(mem[v.st]) /\ \A i \in 1..Len(v.sz) : v.sz[i] > 1) => r = 1)
       [] c.f \in {"elements", "blocks"} -> r = Vals(c.s)
       [] c.f = "positions" -> r = AllIdx(v.sz)

Next(Commands) == \E c \in Commands : Enabled(c) /\ Do(c)

(***************************************************************************)
(* What holds in every reachable state, whatever the commands were.        *)
(***************************************************************************)
TypeOK ==
  /\ DOMAIN mem = Stores(mats)
  /\ \A h \in DOMAIN mats :
       LET v == mats[h]
       IN /\ v.dep \in Depths /\ Len(v.at) = Cells(v)
          /\ \A p \in 1..Len(v.at) : v.at[p] \in 1..Len(mem[v.st]) /\ Fits(v.dep, mem[v.st][v.at[p]])
\* No two index tuples of a view name the same cell.
Injective == \A h \in DOMAIN mats : Cardinality({mats[h].at[p] : p \in 1..Len(mats[h].at)}) = Len(mats[h].at)
\* All views of a store agree on its depth and its owner.
OneDepth == \A g, h \in DOMAIN mats : mats[g].st = mats[h].st => mats[g].dep = mats[h].dep /\ mats[g].own = mats[h].own
References(m, h) == IF m[h].own THEN Cardinality({g \in DOMAIN m : m[g].st = m[h].st}) ELSE 0
=============================================================================
