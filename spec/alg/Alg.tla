-------------------------------- MODULE Alg --------------------------------
(***************************************************************************)
(* The small algorithms of basicmath: sorting, selection, array helpers,   *)
(* dynamic programming, numbers and random numbers.  Each call is judged   *)
(* by what it has to achieve, not by how.  Two things have a history: the  *)
(* streaming selection of the k best values, and the random generator,     *)
(* whose draws after a seed are a function of the seed and of the draws.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES tops,   \* handle -> [k, big, seen]
          log,    \* <<seed, draw, draw, ...>> since the last seed; <<>> before any
          memo    \* log -> what it gave
avars == <<tops, log, memo>>

Init == tops = <<>> /\ log = <<>> /\ memo = <<>>

---------------------------------------------------------------------------
RangeOf(s) == {s[i] : i \in DOMAIN s}
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
SameBag(a, b) == Len(a) = Len(b) /\ \A v \in RangeOf(a) \cup RangeOf(b) : Count(a, v) = Count(b, v)
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Descending(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
RECURSIVE SumOf(_), ProdOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
ProdOf(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdOf(Tail(s))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
AbsV(v) == IF v < 0 THEN -v ELSE v
MaxOf(S) == CHOOSE v \in S : \A w \in S : v >= w
MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w
Odd(v) == (AbsV(v) % 2) = 1
RECURSIVE Fact(_)
Fact(m) == IF m <= 1 THEN 1 ELSE m * Fact(m - 1)
RECURSIVE Pow10(_), Digits(_), Ones(_)
Pow10(m) == IF m = 0 THEN 1 ELSE 10 * Pow10(m - 1)
Digits(v) == IF v < 10 THEN <<v>> ELSE Digits(v \div 10) \o <<(v % 10)>>
Ones(v) == IF v = 0 THEN 0 ELSE Ones(v \div 10) + (IF (v % 10) = 1 THEN 1 ELSE 0)
RECURSIVE Number(_)
Number(d) == IF d = <<>> THEN 0 ELSE Number(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]
RECURSIVE BitsOf(_)
BitsOf(v) == IF v = 0 THEN 0 ELSE (v % 2) + BitsOf(v \div 2)

\* The k best of a sequence, best first.
RECURSIVE Best(_, _, _)
Best(s, k, big) ==
  IF k = 0 \/ s = <<>> THEN <<>>
  ELSE LET v == IF big THEN MaxOf(RangeOf(s)) ELSE MinOf(RangeOf(s))
           i == CHOOSE j \in DOMAIN s : s[j] = v
       IN <<v>> \o Best(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)), k - 1, big)

---------------------------------------------------------------------------
(* Sorting and selection                                                   *)
SortOk(e) ==
  /\ SameBag(e.r, e.x)
  /\ IF e.k = 1 THEN Ascending(e.r) ELSE Descending(e.r)
  /\ e.f = "index" => /\ Len(e.q) = Len(e.x) /\ RangeOf(e.q) = 0..(Len(e.x) - 1)
                      /\ \A i \in DOMAIN e.q : e.r[i] = e.x[e.q[i] + 1]
\* k = 1: odd numbers first; n = 1: keep the order within both kinds.
PartitionOk(e) ==
  LET first == SelectSeq(e.x, LAMBDA v : Odd(v) <=> e.k = 1)
      rest == SelectSeq(e.x, LAMBDA v : ~(Odd(v) <=> e.k = 1))
  IN IF e.n = 1 THEN e.r = first \o rest
     ELSE /\ SameBag(e.r, e.x)
          /\ \A i \in 1..Len(first) : Odd(e.r[i]) <=> e.k = 1
MedianOk(e) ==
  /\ e.r = Best(e.x, Len(e.x), FALSE)[((Len(e.x) - 1) \div 2) + 1]
  /\ IF e.f = "unchanged" THEN e.q = e.x ELSE SameBag(e.q, e.x)
ExtremeOk(e) ==
  LET S == RangeOf(e.x)
      abs == {AbsV(v) : v \in S}
  IN CASE e.f = "max" -> e.r = MaxOf(S)
       [] e.f = "min" -> e.r = MinOf(S)
       [] e.f = "argmax" -> e.r \in 0..(Len(e.x) - 1) /\ e.x[e.r + 1] = MaxOf(S) /\ \A i \in 1..e.r : e.x[i] # MaxOf(S)
       [] e.f = "argmin" -> e.r \in 0..(Len(e.x) - 1) /\ e.x[e.r + 1] = MinOf(S) /\ \A i \in 1..e.r : e.x[i] # MinOf(S)
       [] e.f = "absmin" -> e.r = MinOf(abs)
       [] e.f = "mininabs" -> e.r \in S /\ AbsV(e.r) = MinOf(abs)

TopNew(e) == tops' = (e.i :> [k |-> e.k, big |-> e.n = 1, seen |-> <<>>]) @@ tops
TopAdd(e) == e.i \in DOMAIN tops /\ tops' = [tops EXCEPT ![e.i].seen = @ \o e.x]
TopOk(e) ==
  e.i \in DOMAIN tops /\
  LET t == tops[e.i] b == Best(t.seen, t.k, t.big)
  IN IF e.f = "sorted" THEN e.r = b ELSE SameBag(e.r, b)

---------------------------------------------------------------------------
(* Array helpers and numbers                                               *)
Prefix(s) == [i \in 1..(Len(s) + 1) |-> SumOf(SubSeq(s, 1, i - 1))]
MultiOf(idx, sz) == LET D[i \in 1..(Len(sz) + 1)] == IF i > Len(sz) THEN 1 ELSE sz[i] * D[i + 1]
                    IN [i \in 1..Len(sz) |-> (idx \div D[i + 1]) % sz[i]]
FlatOf(m, sz) == LET F[i \in 0..Len(sz)] == IF i = 0 THEN 0 ELSE F[i - 1] * sz[i] + m[i] IN F[Len(sz)]
HelperOk(e) ==
  CASE e.f = "flip" -> e.r = Reverse(e.x)
    [] e.f = "sub" -> e.r = SubSeq(e.x, e.k + 1, e.n)
    [] e.f = "copy" -> e.r = e.x
    [] e.f \in {"prefix", "prefixarray"} -> e.r = Prefix(e.x)
    [] e.f = "pointers" -> e.r = e.x
    [] e.f = "sum" -> e.r = SumOf(e.x)
    [] e.f = "product" -> e.r = ProdOf(e.x)
    [] e.f = "all" -> e.r = (IF \A i \in DOMAIN e.x : e.x[i] = e.k THEN 1 ELSE 0)
    [] e.f = "equal" -> e.r = (IF e.x = e.y THEN 1 ELSE 0)
    [] e.f = "flat" -> e.r = FlatOf(e.x, e.y)
    [] e.f = "multi" -> e.r = MultiOf(e.k, e.y)
    [] e.f = "compare" -> e.r = (IF e.k > e.n THEN 1 ELSE IF e.k < e.n THEN -1 ELSE 0)
    [] e.f = "symbol" -> e.r = (IF (e.k >= 0 /\ e.n >= 0) \/ (e.k <= 0 /\ e.n <= 0) THEN 1 ELSE 0)
    \* k sixteenths to the nearest integer, halves away from zero
    [] e.f = "round" -> e.r = (IF e.k >= 0 THEN (e.k + 8) \div 16 ELSE -((8 - e.k) \div 16))
    [] e.f = "fact" -> e.r = Fact(e.k)
    [] e.f = "choose" -> e.r = Fact(e.k) \div (Fact(e.n) * Fact(e.k - e.n))
    \* integers as bytes, lowest first
    [] e.f \in {"ones32", "ones64"} -> e.r = SumOf([i \in 1..Len(e.x) |-> BitsOf(e.x[i])])
    [] e.f = "swap" -> e.r = Reverse(e.x)
    [] e.f = "digit1" -> e.r = SumOf([i \in 1..e.k |-> Ones(i)])
    [] e.f = "five" ->
         LET d == Digits(AbsV(e.k))
             ins == {Number(SubSeq(d, 1, i) \o <<5>> \o SubSeq(d, i + 1, Len(d))) : i \in 0..Len(d)}
         IN e.r = (IF e.k >= 0 THEN MaxOf(ins) ELSE -MinOf(ins))
    [] e.f = "angle" -> /\ e.r >= 0 /\ e.r <= 360 /\ ((e.r - e.k) % 360) = 0
    [] e.f = "depth" -> e.r = <<e.k, e.n>>
    \* sin and cos of whole degrees in 1000000ths: the table is on the unit circle and symmetric
    [] e.f = "trig" -> /\ e.r[3] = 1 /\ e.r[4] = 1
                       /\ (e.k = 0 => e.r[1] = 0 /\ e.r[2] = 1000000)
                       /\ (e.k = 30 => e.r[1] = 500000) /\ (e.k = 60 => e.r[2] = 500000)
                       /\ (e.k = 90 => e.r[1] = 1000000 /\ e.r[2] = 0)
                       /\ (e.k = 180 => e.r[1] = 0 /\ e.r[2] = -1000000)
                       /\ (e.k = 270 => e.r[1] = -1000000 /\ e.r[2] = 0)

\* x: ships as top, left, bottom, right; y: hits as row, column
Quad(x, i) == SubSeq(x, 4 * (i - 1) + 1, 4 * i)
Cells(q) == {<<r, c>> : r \in q[1]..q[3], c \in q[2]..q[4]}
ShipsOk(e) ==
  LET hits == {<<e.y[2 * i - 1], e.y[2 * i]>> : i \in 1..(Len(e.y) \div 2)}
      ships == 1..(Len(e.x) \div 4)
      sunk == {i \in ships : Cells(Quad(e.x, i)) \subseteq hits}
      hit == {i \in ships \ sunk : Cells(Quad(e.x, i)) \cap hits # {}}
  IN e.r = <<Cardinality(sunk), Cardinality(hit)>>

\* r: the upper part, q: the lower part; no other split has means further apart
SplitOk(e) ==
  LET s == Best(e.x, Len(e.x), FALSE)
      n == Len(s)
      Gap(i) == <<SumOf(SubSeq(s, i + 1, n)) * i - SumOf(SubSeq(s, 1, i)) * (n - i), i * (n - i)>>   \* numerator, denominator
  IN /\ SameBag(e.r \o e.q, e.x)
     /\ IF n <= 1 THEN e.q = <<>>
        ELSE /\ Len(e.q) \in 1..(n - 1)
             /\ SameBag(e.q, SubSeq(s, 1, Len(e.q)))
             /\ \A i \in 1..(n - 1) : Gap(i)[1] * Gap(Len(e.q))[2] <= Gap(Len(e.q))[1] * Gap(i)[2]

\* x: data; g: for every datum, how many bins begin at or below it; r: the numbers; bins adjoin (k = 1)
HistOk(e) ==
  /\ Len(e.r) = e.n /\ e.adjoin = 1
  /\ \A j \in 1..e.n : e.r[j] = Count(e.q, j)
  /\ \A i \in DOMAIN e.x : e.q[i] \in 1..e.n
  /\ \A i, j \in DOMAIN e.x : e.x[i] <= e.x[j] => e.q[i] <= e.q[j]
  /\ \A i \in DOMAIN e.x : e.x[i] = MinOf(RangeOf(e.x)) /\ MinOf(RangeOf(e.x)) # MaxOf(RangeOf(e.x)) => e.q[i] = 1

---------------------------------------------------------------------------
(* Dynamic programming                                                     *)
RECURSIVE BestBag(_, _, _)
BestBag(w, v, cap) ==
  IF w = <<>> THEN 0
  ELSE LET skip == BestBag(Tail(w), Tail(v), cap)
       IN IF w[1] > cap THEN skip
          ELSE LET take == v[1] + BestBag(Tail(w), Tail(v), cap - w[1]) IN IF take > skip THEN take ELSE skip
BagOk(e) ==
  /\ e.r = BestBag(e.x, e.y, e.k)
  /\ Len(e.q) = Len(e.x) /\ RangeOf(e.q) \subseteq {0, 1}
  /\ SumOf([i \in 1..Len(e.x) |-> e.q[i] * e.x[i]]) <= e.k
  /\ SumOf([i \in 1..Len(e.x) |-> e.q[i] * e.y[i]]) = e.r

\* Common substrings of length len: where they begin in a and in b (from 0).
Common(a, b, len) == {<<i, j>> \in (0..(Len(a) - len)) \X (0..(Len(b) - len)) : \A k \in 1..len : a[i + k] = b[j + k]}
LongestCommon(a, b) == MaxOf({len \in 0..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : Common(a, b, len) # {}})
LcsOk(e) ==
  LET len == LongestCommon(e.x, e.y)
  IN /\ e.r[1] = len
     /\ (len > 0 => <<e.r[2], e.r[3]>> \in Common(e.x, e.y, len))
     /\ Len(e.q) = Len(e.p)
     /\ (IF len = 0 THEN e.q = <<>>
         ELSE /\ {<<e.q[i], e.p[i]>> : i \in DOMAIN e.q} = Common(e.x, e.y, len)
              /\ Len(e.q) = Cardinality(Common(e.x, e.y, len)))

Slices(x) == {<<b, n>> \in (1..Len(x)) \X (1..Len(x)) : b + n - 1 <= Len(x)}
SliceSum(x, b, n) == SumOf(SubSeq(x, b, b + n - 1))
MaxSliceOk(e) ==
  /\ <<e.q[1] + 1, e.q[2]>> \in Slices(e.x)
  /\ e.r = SliceSum(e.x, e.q[1] + 1, e.q[2])
  /\ LET P == Prefix(e.x) IN \A s \in Slices(e.x) : P[s[1] + s[2]] - P[s[1]] <= e.r

---------------------------------------------------------------------------
(* Random numbers.  k, n: the parameters of the draw; r: what was drawn.   *)
DrawOk(e) ==
  CASE e.f = "int" -> Len(e.r) = e.i /\ \A i \in DOMAIN e.r : e.r[i] \in e.k..e.n
    [] e.f = "uniform" -> Len(e.r) = e.i /\ \A i \in DOMAIN e.r : e.r[i] \in e.k..e.n       \* the driver rounds towards minus infinity
    [] e.f = "perm" -> Len(e.r) = e.i /\ RangeOf(e.r) = 0..(e.i - 1)
    [] e.f = "sample" -> Len(e.r) = e.i /\ RangeOf(e.r) \subseteq 0..(e.i - 1)
    [] e.f = "binomial" -> Len(e.r) = e.i /\ \A i \in DOMAIN e.r : e.r[i] \in 0..e.n /\ (e.k = 0 => e.r[i] = 0) /\ (e.k = 16 => e.r[i] = e.n)
    [] e.f = "gauss0" -> Len(e.r) = e.i /\ \A i \in DOMAIN e.r : e.r[i] = e.k
    [] e.f = "gauss" -> Len(e.r) = e.i
    \* matrices: e.i elements with one channel; e.q = how many of them differ from one another
    [] e.f \in {"uniformmat", "binomialmat"} -> Len(e.r) = e.i /\ \A i \in DOMAIN e.r : e.r[i] \in (IF e.f = "uniformmat" THEN e.k..e.n ELSE 0..e.n)
\* The standard shuffle has a generator of its own, so a permutation is not a function of the seed.
Repeatable(e) == e.f # "perm"
Call(e) == <<e.f, e.k, e.n, e.i>>
Seed(e) == log' = <<e.k>>
Draw(e) ==
  /\ DrawOk(e)
  /\ IF Repeatable(e) /\ log # <<>>
     THEN LET at == Append(log, Call(e))
          IN /\ at \in DOMAIN memo => memo[at] = e.r
             /\ memo' = (at :> e.r) @@ memo
             /\ log' = at
     ELSE UNCHANGED <<memo, log>>

---------------------------------------------------------------------------
Judged(e) ==
  CASE e.op = "sort" -> SortOk(e)
    [] e.op = "partition" -> PartitionOk(e)
    [] e.op = "median" -> MedianOk(e)
    [] e.op = "extreme" -> ExtremeOk(e)
    [] e.op = "topget" -> TopOk(e)
    [] e.op = "help" -> HelperOk(e)
    [] e.op = "ships" -> ShipsOk(e)
    [] e.op = "split" -> SplitOk(e)
    [] e.op = "hist" -> HistOk(e)
    [] e.op = "bag" -> BagOk(e)
    [] e.op = "lcs" -> LcsOk(e)
    [] e.op = "slice" -> MaxSliceOk(e)
    [] OTHER -> FALSE

Do(e) ==
  IF e.op = "topnew" THEN TopNew(e) /\ UNCHANGED <<log, memo>>
  ELSE IF e.op = "topadd" THEN TopAdd(e) /\ UNCHANGED <<log, memo>>
  ELSE IF e.op = "seed" THEN Seed(e) /\ UNCHANGED <<tops, memo>>
  ELSE IF e.op = "draw" THEN Draw(e) /\ UNCHANGED tops
  ELSE TLCEval(Judged(e)) /\ UNCHANGED avars
=============================================================================
