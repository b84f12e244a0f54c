------------------------------- MODULE MatGen -------------------------------
(***************************************************************************)
(* Random behaviours of Mat (TLC -simulate).  Each step picks a command    *)
(* kind, operands and parameters at random; commands that a caller must    *)
(* not give in the present state are passed over.  The result is a plan of *)
(* concrete commands for the driver.                                       *)
(***************************************************************************)
EXTENDS Mat, Json
CONSTANTS Kinds,      \* sequence of command kinds (repetition is weight)
          Deps,       \* set of depths
          Handles, Depth, MaxDim, MaxSize, MaxChannel

VARIABLES hist, n
gvars == <<mem, mats, hist, n>>

Rnd(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
RSeq(k, S) == [i \in 1..k |-> RandomElement(S)]
RSizes(x) == RSeq(RandomElement({1, 2, 2, 2, 3, 3, MaxDim} \cap 1..MaxDim), 1..MaxSize)
\* Values that suit a depth: small ones, with now and then an extreme one.
RVal(dep) ==
  IF IsFloat(dep) THEN (IF Chance(3) THEN 4 * RandomElement(-30..30) ELSE IF Chance(8) THEN RandomElement(-999..999) ELSE 16 * RandomElement(-9..12))
  ELSE IF Chance(12) THEN RandomElement({Low(dep), High(dep)})
  ELSE IF Low(dep) < 0 THEN RandomElement(-9..12) ELSE RandomElement(0..15)
RVals(k, dep) == [i \in 1..k |-> RVal(dep)]
RSpread(dep, ch) == RVals(IF Chance(3) THEN 1 ELSE ch, dep)
RIdx(sz) == [i \in 1..Len(sz) |-> RandomElement(0..(sz[i] - 1))]
RDep(x) == RandomElement(Deps)
Ops4 == {"add", "sub", "mul", "div"}

\* Factorisations of k into 1 to 4 factors, one at random.
RECURSIVE RFactors(_, _)
RFactors(k, m) == IF m = 1 THEN <<k>>
                  ELSE LET f == RandomElement({x \in 1..k : (k % x) = 0}) IN <<f>> \o RFactors(k \div f, m - 1)

Form2(c, S) == [f |-> RandomElement(S)] @@ c

\* Which signatures can express a sub-range.
SubForms(v, a, b) ==
  LET part == {i \in 1..Len(a) : a[i] # 0 \/ b[i] # v.sz[i]}
      one == Cardinality(part) <= 1
      k == IF part = {} THEN 1 ELSE CHOOSE i \in part : TRUE
  IN {"arr", "vec", "ctorarr", "ctorvec"}
     \cup (IF b = v.sz THEN {"end"} ELSE {})
     \cup (IF one THEN {"sub1", "range1", "ctor1"} ELSE {})
     \cup (IF one /\ b[k] = a[k] + 1 THEN {"index"} \cup (IF Len(a) = 2 THEN (IF k = 1 THEN {"row"} ELSE {"col"}) ELSE IF Len(a) = 3 /\ k = 1 THEN {"plane"} ELSE {}) ELSE {})
     \cup (IF one /\ a[k] = 0 THEN {"front"} ELSE {})
     \cup (IF one /\ b[k] = v.sz[k] THEN {"back"} ELSE {})
     \cup (IF Len(a) = 2 THEN {"roi", "ctorroi"} ELSE {})
SubDim(v, a, b) == LET part == {i \in 1..Len(a) : a[i] # 0 \/ b[i] # v.sz[i]} IN IF part = {} THEN 1 ELSE CHOOSE i \in part : TRUE

SpreadForms(v, ch) == {"vec"} \cup (IF Len(v) = 1 THEN {"f64", "f64"} ELSE {}) \cup (IF Len(v) = ch /\ ch <= 4 THEN {"scalar"} ELSE {})
\* A vector given to a signature taking one has a value for every channel.
Full(v, ch) == IF Len(v) = ch THEN v ELSE [i \in 1..ch |-> v[1]]
WithSpread(c, v, ch) ==
  LET f == RandomElement({"vec", "f64"} \cup (IF ch <= 4 THEN {"scalar"} ELSE {}))
  IN [f |-> f, v |-> IF f = "f64" THEN <<v[1]>> ELSE Full(v, ch)] @@ c
CtorForm(x) == RandomElement({"ints", "arr", "vector"})

\* A layout for wrapped memory: padded sizes, a permutation of the dimensions, signs.
RWrap(d) ==
  LET dep == RDep(0) ch == RandomElement(1..MaxChannel) sz == RSizes(0)
      psz == [i \in 1..Len(sz) |-> sz[i] + (IF Chance(3) THEN 1 ELSE 0)]
      gap == IF Chance(3) THEN 1 ELSE 0
      auto == Chance(4)
      st == [i \in 1..Len(sz) |-> ProdFrom(IF auto THEN sz ELSE psz, i + 1) * (ch + (IF auto THEN 0 ELSE gap))]
      neg == {i \in 1..Len(sz) : ~auto /\ Chance(4)}
      Off[i \in 0..Len(sz)] == IF i = 0 THEN 0 ELSE Off[i - 1] + (IF i \in neg THEN (sz[i] - 1) * st[i] ELSE 0)
      total == Prod(IF auto THEN sz ELSE psz) * (ch + (IF auto THEN 0 ELSE gap))
      perm == Len(sz) = 2 /\ ~auto /\ Chance(3)
      base == [op |-> "wrap", d |-> d, dep |-> dep, ch |-> ch, k |-> Off[Len(sz)], v |-> RVals(total, dep), own |-> Chance(2), auto |-> auto, f |-> CtorForm(0)]
      a == [i \in 1..Len(sz) |-> IF i \in neg THEN -st[i] ELSE st[i]]
  IN IF perm THEN [sz |-> <<sz[2], sz[1]>>, a |-> <<a[2], a[1]>>] @@ base ELSE [sz |-> sz, a |-> a] @@ base

Similar(s) == {h \in DOMAIN mats : SameShape(mats[h], mats[s])}
SimilarDep(s) == {h \in Similar(s) : mats[h].dep = mats[s].dep}
BiasFor(s) == LET c == {h \in DOMAIN mats : mats[h].dep = mats[s].dep /\ mats[h].ch = mats[s].ch /\ Len(mats[h].sz) = Len(mats[s].sz)
                                            /\ \A i \in 1..Len(mats[s].sz) : Divides(mats[h].sz[i], mats[s].sz[i])} IN c

Command(kind, d, s) ==
  LET v == mats[s] dims == Len(v.sz) IN
  CASE kind = "new" -> LET dep == RDep(0) ch == RandomElement(1..MaxChannel) sz == RSizes(0)
                       IN [op |-> "new", d |-> d, dep |-> dep, ch |-> ch, sz |-> sz, v |-> RVals(Prod(sz) * ch, dep), f |-> CtorForm(0)]
    [] kind = "like2" -> [op |-> "new", d |-> d, dep |-> v.dep, ch |-> v.ch, sz |-> v.sz, v |-> RVals(Cells(v), v.dep), f |-> CtorForm(0)]
    \* few levels and power-of-two sizes, so that means and variances come out exact
    [] kind = "coarse" -> LET sz == RSeq(RandomElement(1..3), {1, 2, 4}) ch == RandomElement({1, 2, MaxChannel})
                          IN [op |-> "new", d |-> d, dep |-> RandomElement(Deps), ch |-> ch, sz |-> sz, v |-> RSeq(Prod(sz) * ch, {0, 32, 64}), f |-> CtorForm(0)]
    [] kind = "biasmat" -> LET sz == [i \in 1..dims |-> RandomElement({x \in 1..v.sz[i] : (v.sz[i] % x) = 0})]
                           IN [op |-> "new", d |-> d, dep |-> v.dep, ch |-> v.ch, sz |-> IF Chance(3) THEN [i \in 1..dims |-> 1] ELSE sz,
                               v |-> RVals((IF Chance(1) THEN Prod(sz) ELSE 1) * v.ch, v.dep), f |-> CtorForm(0)]
    [] kind = "fill" -> LET dep == RDep(0) ch == RandomElement(1..MaxChannel) IN WithSpread([op |-> "fill", d |-> d, dep |-> dep, ch |-> ch, sz |-> RSizes(0), g |-> CtorForm(0)], RSpread(dep, ch), ch)
    [] kind = "create" -> LET same == Chance(2) dep == IF same THEN v.dep ELSE RDep(0) ch == IF same THEN v.ch ELSE RandomElement(1..MaxChannel)
                          IN WithSpread([op |-> "create", d |-> IF Chance(2) THEN s ELSE d, dep |-> dep, ch |-> ch, sz |-> IF same THEN v.sz ELSE RSizes(0), g |-> RandomElement({"ints", "arr"})], RSpread(dep, ch), ch)
    [] kind = "like" -> WithSpread([op |-> "like", d |-> d, s |-> s, g |-> RandomElement({"size", "init"})], RSpread(v.dep, v.ch), v.ch)
    [] kind = "wrap" -> RWrap(d)
    [] kind = "alias" -> [op |-> "alias", d |-> d, s |-> s, f |-> RandomElement({"assign", "ctor"})]
    [] kind = "sub" -> LET k == RandomElement(1..dims)
                           some == Chance(2)
                           a == [i \in 1..dims |-> IF some /\ i # k THEN 0 ELSE RandomElement(0..(v.sz[i] - 1))]
                           b == [i \in 1..dims |-> IF some /\ i # k THEN v.sz[i] ELSE RandomElement((a[i] + 1)..v.sz[i])]
                       IN [op |-> "sub", d |-> d, s |-> s, a |-> a, b |-> b, k |-> SubDim(v, a, b), f |-> RandomElement(SubForms(v, a, b))]
    [] kind = "flip" -> LET D == RandomElement(SUBSET (1..dims) \ {{}})
                        IN [op |-> "flip", d |-> d, s |-> s, a |-> LET Q[T \in SUBSET (1..dims)] == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o Q[T \ {x}] IN Q[D],
                            f |-> RandomElement({"dims", "dimvec", "flags", "flagvec"} \cup (IF Cardinality(D) = 1 THEN {"one"} ELSE {}) \cup (IF D = 1..dims THEN {"all"} ELSE {}))]
    [] kind = "swap" -> [op |-> "swap", d |-> d, s |-> s] @@ (IF dims = 2 /\ Chance(2) THEN [f |-> "t", k |-> 1, n |-> 2] ELSE [f |-> "swap", k |-> RandomElement(1..dims), n |-> RandomElement(1..dims)])
    [] kind = "stride" -> [op |-> "stride", d |-> d, s |-> s, a |-> RSeq(dims, 1..3), f |-> ""]
    [] kind = "subch" -> LET a == RandomElement(0..(v.ch - 1)) b == RandomElement((a + 1)..v.ch)
                         IN [op |-> "subch", d |-> d, s |-> s, a |-> <<a, b>>, f |-> IF b = a + 1 THEN RandomElement({"sub", "at", "all"}) ELSE "sub"]
    [] kind = "reshape" -> LET total == Elems(v) * v.ch
                               ch == IF Chance(2) THEN v.ch ELSE RandomElement({x \in 1..8 : (total % x) = 0})
                               sz == RFactors(total \div ch, RandomElement(1..MaxDim))
                               \* reshape_channel divides the last size
                               rc == (v.sz[dims] * v.ch) % ch = 0 /\ ((ch % v.ch) = 0 \/ (v.ch % ch) = 0)
                           IN IF rc /\ Chance(3) THEN [op |-> "reshape", d |-> d, s |-> s, sz |-> [v.sz EXCEPT ![dims] = (@ * v.ch) \div ch], ch |-> ch, f |-> "channel"]
                              ELSE [op |-> "reshape", d |-> d, s |-> s, sz |-> sz, ch |-> ch,
                                    f |-> RandomElement({"arr", "vec"} \cup (IF Len(sz) = 2 THEN {"2d"} ELSE IF Len(sz) = 3 THEN {"3d"} ELSE {}))]
    [] kind = "split" -> LET k == RandomElement(1..dims)
                         IN IF Chance(3) THEN (IF Chance(2) THEN [op |-> "split", d |-> d, s |-> s, k |-> k, a |-> <<1, v.sz[k]>>, f |-> "inc"]
                                               ELSE [op |-> "split", d |-> d, s |-> s, k |-> dims, a |-> <<v.sz[dims], 1>>, f |-> "inclast"])
                            ELSE [op |-> "split", d |-> d, s |-> s, k |-> k, a |-> RFactors(v.sz[k], RandomElement(1..2)), f |-> "split"]
    [] kind = "comb" -> LET ones == {i \in 1..dims : v.sz[i] = 1}
                        IN IF ones # {} /\ dims > 1 /\ Chance(2)
                           THEN LET i == RandomElement(ones) IN [op |-> "comb", d |-> d, s |-> s, k |-> IF i = 1 THEN 1 ELSE i - 1, n |-> 2, f |-> "dec", i |-> i]
                           ELSE LET k == RandomElement(1..dims) IN [op |-> "comb", d |-> d, s |-> s, k |-> k, n |-> RandomElement(1..(dims - k + 1)), f |-> "comb"]
    [] kind \in {"chlast", "lastch", "clone", "drop"} -> [op |-> kind, d |-> d, s |-> s, f |-> ""]
    [] kind = "channel" -> [op |-> "channel", d |-> d, s |-> s, k |-> RandomElement(0..(v.ch - 1)), f |-> RandomElement({"split", "share"})]
    [] kind = "convert" -> [op |-> "convert", d |-> d, s |-> s, dep |-> RDep(0), f |-> RandomElement({"ret", "into"})]
    [] kind = "copyfrom" -> [op |-> "copyfrom", d |-> IF Chance(2) THEN RandomElement(Similar(s)) ELSE d, s |-> s, f |-> ""]
    [] kind = "repeat" -> LET a == RSeq(dims, {1, 1, 2, 3}) k == RandomElement({1, 1, 2})
                              one == Cardinality({i \in 1..dims : a[i] # 1}) <= 1
                          IN [op |-> "repeat", d |-> d, s |-> s, a |-> a, k |-> k, f |-> RandomElement({"arr", "vec"} \cup (IF dims = 2 THEN {"2d"} ELSE IF dims = 3 THEN {"3d"} ELSE {}) \cup (IF one THEN {"one"} ELSE {}))]
    [] kind = "expand" -> LET a == RSeq(dims, 0..2) b == RSeq(dims, 0..2) f == RandomElement({"arr", "scalararr", "vec", "tlonly", "bronly"})
                              zero == [i \in 1..dims |-> 0]
                          IN [op |-> "expand", d |-> d, s |-> s, a |-> IF f = "bronly" THEN zero ELSE a, b |-> IF f = "tlonly" THEN zero ELSE b,
                              v |-> RVals(v.ch, v.dep), f |-> IF v.ch > 4 THEN "arr" ELSE f]
    [] kind = "merge" -> LET k == RandomElement(1..dims)
                             fit == {h \in DOMAIN mats : mats[h].dep = v.dep /\ mats[h].ch = v.ch /\ Len(mats[h].sz) = dims /\ \A i \in 1..dims : i = k \/ mats[h].sz[i] = v.sz[i]}
                         IN [op |-> "merge", d |-> d, ss |-> <<s>> \o RSeq(RandomElement(0..2), fit), k |-> k, f |-> RandomElement({"copy", "share"})]
    [] kind = "mergech" -> LET fit == {h \in DOMAIN mats : mats[h].dep = v.dep /\ mats[h].sz = v.sz}
                           IN [op |-> "mergech", d |-> d, ss |-> <<s>> \o RSeq(RandomElement(0..2), fit), f |-> RandomElement({"copy", "share"})]
    [] kind = "total" -> [op |-> "total", d |-> d, ss |-> <<s>> \o RSeq(RandomElement(0..2), SimilarDep(s)), o |-> RandomElement({"add", "mul"}), f |-> RandomElement({"copy", "share"})]
    [] kind = "set" -> WithSpread([op |-> "set", s |-> s], RSpread(v.dep, v.ch), v.ch)
    [] kind = "setat" -> LET c == WithSpread([op |-> "setat", s |-> s, a |-> RIdx(v.sz)], RSpread(v.dep, v.ch), v.ch) IN [g |-> RandomElement({"arr", "ints"})] @@ c
    [] kind = "poke" -> [op |-> "poke", s |-> s, a |-> RIdx(v.sz), k |-> RandomElement(0..(v.ch - 1)), v |-> <<RVal(v.dep)>>, f |-> RandomElement({"at", "atvec", "atints", "ptr", "ptrints"})]
    [] kind = "incr" -> [op |-> "incr", s |-> s, v |-> <<RVal(v.dep)>>, f |-> RandomElement({"same", "each"})]
    [] kind = "setmat" -> [op |-> "setmat", s |-> s, t |-> RandomElement(Similar(s)), f |-> ""]
    [] kind = "arith" -> [op |-> "arith", d |-> d, s |-> s, t |-> RandomElement(SimilarDep(s)), o |-> RandomElement(Ops4), f |-> ""]
    [] kind = "selfarith" -> [op |-> "selfarith", s |-> s, t |-> RandomElement(SimilarDep(s)), o |-> RandomElement(Ops4), f |-> ""]
    [] kind = "arithv" -> WithSpread([op |-> "arithv", d |-> d, s |-> s, o |-> RandomElement(Ops4)], RSpread(v.dep, v.ch), v.ch)
    [] kind = "selfarithv" -> WithSpread([op |-> "selfarithv", s |-> s, o |-> RandomElement(Ops4)], RSpread(v.dep, v.ch), v.ch)
    [] kind = "varith" -> [op |-> "varith", d |-> d, s |-> s, o |-> RandomElement(Ops4), v |-> RVals(1, v.dep), f |-> "f64"]
    [] kind \in {"neg", "abs"} -> [op |-> kind, d |-> d, s |-> s, f |-> ""]
    [] kind = "selfabs" -> [op |-> kind, s |-> s, f |-> ""]
    [] kind = "bias" -> [op |-> "bias", d |-> d, s |-> s, t |-> RandomElement(BiasFor(s)), o |-> RandomElement(Ops4), f |-> ""]
    [] kind = "mask" -> [op |-> "mask", d |-> d, s |-> s, t |-> IF Chance(3) THEN 0 ELSE RandomElement(Similar(s)), v |-> RVals(2, v.dep),
                         o |-> RandomElement({"bigger", "smaller", "same", "nonbigger", "nonsmaller"}), f |-> ""]
    [] kind = "pow" -> [op |-> "pow", d |-> d, s |-> s, k |-> RandomElement({0, 1, 2, 4, 6}), f |-> ""]
    [] kind = "selfpow" -> [op |-> "selfpow", s |-> s, k |-> RandomElement({0, 1, 2, 4, 6}), f |-> ""]
    [] kind = "reduce" -> [op |-> "reduce", d |-> d, s |-> s, o |-> RandomElement({"sum", "mean", "max", "min", "var", "uvar", "std", "ustd"}), k |-> RandomElement(0..dims), f |-> ""]
    [] kind = "json" -> [op |-> "json", d |-> d, s |-> s, f |-> RandomElement({"text", "binary", "textfile", "binaryfile"})]
    [] kind = "askshare" -> [op |-> "ask", s |-> s, f |-> RandomElement({"shared", "same", "eq"}), a |-> RIdx(v.sz), t |-> RandomElement(DOMAIN mats), g |-> "arr"]
    [] kind = "ask" -> LET f == RandomElement({"get", "ptr", "index", "eq", "samesize", "samemem", "shared", "same", "zero", "number", "bytes", "cont", "elements", "blocks", "positions"})
                       IN [op |-> "ask", s |-> s, f |-> f, a |-> RIdx(v.sz), t |-> IF Chance(4) THEN RandomElement(DOMAIN mats) ELSE RandomElement(Similar(s)), g |-> RandomElement({"arr", "vec", "ints"})]

NeedsNothing == {"new", "fill", "wrap", "coarse"}
GInit == Init /\ hist = <<>> /\ n = 0
GNext ==
  /\ n < Depth
  /\ n' = n + 1
  /\ \E kind \in {IF DOMAIN mats = {} THEN RandomElement(NeedsNothing \cap {Kinds[i] : i \in 1..Len(Kinds)}) ELSE Kinds[RandomElement(1..Len(Kinds))]} :
     \E d \in {RandomElement(Handles)} :
     \E s \in {IF DOMAIN mats = {} THEN 0 ELSE RandomElement(DOMAIN mats)} :
     \E c \in {TLCEval(IF s = 0 THEN Command(kind, d, s) ELSE Command(kind, d, s))} :
        IF Enabled(c) THEN Do(c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<mem, mats, hist>>
GSpec == GInit /\ [][GNext]_gvars
Emit == n = Depth => PrintT("PLAN " \o ToJson(hist))

AllDepths == Depths
KindsViews == <<"new", "new", "wrap", "alias", "sub", "sub", "flip", "swap", "stride", "subch", "reshape", "split", "comb", "comb", "chlast", "lastch", "poke", "poke", "setat", "ask", "ask", "set">>
KindsShare == <<"new", "fill", "like", "create", "create", "wrap", "alias", "alias", "sub", "flip", "reshape", "comb", "channel", "clone", "clone", "copyfrom", "copyfrom", "convert", "drop", "drop", "poke", "set", "askshare", "askshare">>
KindsWrite == <<"new", "new", "like2", "wrap", "fill", "sub", "flip", "swap", "stride", "subch", "split", "set", "set", "setat", "incr", "setmat", "setmat", "setmat", "convert", "convert", "copyfrom", "like", "create">>
KindsArith == <<"new", "like2", "like2", "wrap", "sub", "flip", "swap", "stride", "subch", "comb", "arith", "arith", "selfarith", "selfarith", "arithv", "selfarithv", "varith", "neg", "abs", "selfabs", "biasmat", "bias", "bias", "mask", "mask">>
KindsPow == <<"coarse", "coarse", "new", "sub", "flip", "swap", "pow", "selfpow", "pow", "selfarith">>
KindsReduce == <<"coarse", "coarse", "like2", "sub", "flip", "swap", "subch", "reduce", "reduce", "reduce", "reduce">>
KindsGather == <<"new", "like2", "like2", "wrap", "sub", "flip", "swap", "stride", "subch", "split", "repeat", "repeat", "expand", "expand", "merge", "merge", "mergech", "mergech", "total", "channel">>
KindsAsk == <<"new", "like2", "wrap", "clone", "alias", "sub", "flip", "swap", "stride", "subch", "split", "chlast", "poke", "set", "setmat", "ask", "ask", "ask", "ask", "ask", "ask", "ask", "ask">>
KindsJson == <<"new", "new", "wrap", "sub", "flip", "swap", "stride", "subch", "split", "json", "json", "json", "poke">>
FloatDepths == {"f32", "f64"}
=============================================================================
