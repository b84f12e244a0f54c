------------------------------- MODULE AlgGen -------------------------------
(* Random sequences of calls (TLC -simulate) for the driver drv_alg. *)
EXTENDS Alg, Json
CONSTANTS Kinds, Depth
VARIABLES hist, n

Rnd(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
RSeq(k, S) == [i \in 1..k |-> RandomElement(S)]
RLen(lo, hi) == IF Chance(6) THEN lo ELSE IF Chance(6) THEN hi ELSE RandomElement(lo..hi)
RVals(lo, hi) == RSeq(RLen(lo, hi), IF Chance(3) THEN 0..2 ELSE IF Chance(3) THEN -40..40 ELSE -6..9)
Arranged(x) == IF Chance(5) THEN Best(x, Len(x), Chance(2)) ELSE x
Types == {"i32", "f64", "f32", "i64"}
Ids == 1..3

Command(kind) ==
  CASE kind = "sort" -> [op |-> "sort", f |-> Rnd({"index", "bubble", "heap"}), g |-> Rnd(Types), k |-> Rnd(0..1), x |-> Arranged(IF Chance(15) THEN RVals(30, 45) ELSE RVals(0, 14))]
    [] kind = "partition" -> [op |-> "partition", k |-> Rnd(0..1), n |-> Rnd(0..1), x |-> RVals(0, 10)]
    [] kind = "median" -> [op |-> "median", f |-> Rnd({"changed", "unchanged"}), g |-> Rnd(Types), x |-> Arranged(RVals(1, 11))]
    [] kind = "extreme" -> [op |-> "extreme", f |-> Rnd({"max", "min", "argmax", "argmin", "absmin", "mininabs"}), g |-> Rnd(Types), x |-> RVals(1, 8)]
    [] kind = "top" ->
         LET i == Rnd(Ids)
         IN IF i \notin DOMAIN tops \/ Chance(12) THEN [op |-> "topnew", i |-> i, k |-> Rnd(1..6), n |-> Rnd(0..1)]
            ELSE IF Chance(2) THEN [op |-> "topadd", i |-> i, x |-> RVals(1, 6)]
            ELSE [op |-> "topget", i |-> i, f |-> Rnd({"sorted", "any"})]
    [] kind = "help" ->
         LET f == Rnd({"flip", "sub", "copy", "prefix", "prefixarray", "pointers", "sum", "product", "all", "equal", "flat", "multi", "compare",
                       "symbol", "round", "fact", "choose", "ones32", "ones64", "swap", "digit1", "five", "angle", "depth", "trig"})
             b == [op |-> "help", f |-> f]
         IN (CASE f \in {"flip", "copy", "pointers", "prefixarray", "prefix"} -> [x |-> RVals(0, 9)] @@ b
              [] f = "sub" -> LET x == RVals(1, 9) k == Rnd(0..Len(x)) IN [x |-> x, k |-> k, n |-> Rnd(k..Len(x))] @@ b
              [] f = "sum" -> [x |-> RVals(0, 9)] @@ b
              [] f = "product" -> [x |-> RSeq(Rnd(1..6), -6..9)] @@ b
              [] f = "all" -> LET v == Rnd(-3..3) IN [k |-> v, g |-> Rnd(Types), x |-> IF Chance(2) THEN [i \in 1..Rnd(0..5) |-> v] ELSE RSeq(Rnd(0..4), {v, v, v + 1})] @@ b
              [] f = "equal" -> LET x == RVals(0, 5) IN [x |-> x, g |-> Rnd(Types), y |-> IF Chance(2) THEN x ELSE IF x # <<>> /\ Chance(2) THEN [x EXCEPT ![Rnd(1..Len(x))] = @ + 1] ELSE RVals(0, 5)] @@ b
              [] f = "flat" -> LET y == RSeq(Rnd(1..4), 1..5) IN [y |-> y, x |-> [i \in 1..Len(y) |-> Rnd(0..(y[i] - 1))]] @@ b
              [] f = "multi" -> LET y == RSeq(Rnd(1..4), 1..5) IN [y |-> y, k |-> Rnd(0..(ProdOf(y) - 1))] @@ b
              [] f = "compare" -> LET g == Rnd({"i32", "i64", "u32", "u8", "f32", "f64"}) S == IF g \in {"u32", "u8"} THEN 0..200 ELSE -90..90 k == Rnd(S)
                                  IN [g |-> g, k |-> k, n |-> IF Chance(3) THEN k ELSE Rnd(S)] @@ b
              [] f = "symbol" -> [g |-> Rnd({"i32", "f64"}), k |-> Rnd(-2..2), n |-> Rnd(-2..2)] @@ b
              [] f = "round" -> [g |-> Rnd({"f32", "f64"}), k |-> IF Chance(2) THEN 8 * Rnd(-40..40) ELSE Rnd(-700..700)] @@ b
              [] f = "fact" -> [k |-> Rnd(0..12)] @@ b
              [] f = "choose" -> LET k == Rnd(0..12) IN [k |-> k, n |-> Rnd(0..k)] @@ b
              [] f = "ones32" -> [x |-> RSeq(4, IF Chance(3) THEN {0, 255, 128} ELSE 0..255)] @@ b
              [] f = "ones64" -> [x |-> RSeq(8, IF Chance(3) THEN {0, 255, 128} ELSE 0..255)] @@ b
              [] f = "swap" -> [x |-> RSeq(4, IF Chance(3) THEN {0, 255, 128} ELSE 0..255)] @@ b
              [] f = "digit1" -> [k |-> IF Chance(3) THEN Rnd(0..25) ELSE Rnd(0..1300)] @@ b
              [] f = "five" -> [k |-> IF Chance(3) THEN Rnd(-99..99) ELSE Rnd(-9999999..9999999)] @@ b
              [] f = "angle" -> [g |-> Rnd({"i32", "f64"}), k |-> IF Chance(4) THEN Rnd({-360, 0, 360, 720, 361, -1}) ELSE Rnd(-360..720)] @@ b
              [] f = "depth" -> [k |-> Rnd(0..9), n |-> IF Chance(3) THEN Rnd(1..4) ELSE Rnd(1..500)] @@ b
              [] f = "trig" -> [k |-> IF Chance(3) THEN Rnd({0, 30, 60, 90, 180, 270}) ELSE Rnd(0..359)] @@ b)
    [] kind = "ships" ->
         LET m == Rnd(1..3)
             Ship(i) == LET t == Rnd(1..3) a == Rnd(1..4) IN <<t, a, t + Rnd(0..1), a + Rnd(0..1)>>
             ss == [i \in 1..m |-> Ship(i)]
             All[i \in 0..m] == IF i = 0 THEN <<>> ELSE All[i - 1] \o ss[i]
         IN [op |-> "ships", x |-> All[m], y |-> RSeq(2 * Rnd(1..9), 1..5)]
    [] kind = "split" -> [op |-> "split", k |-> Rnd(0..1), x |-> RSeq(RLen(1, 9), IF Chance(3) THEN 0..3 ELSE -20..40)]
    [] kind = "hist" -> [op |-> "hist", n |-> Rnd(1..6), k |-> Rnd(0..1), x |-> RVals(1, 12)]
    [] kind = "bag" -> LET m == Rnd(1..6) IN [op |-> "bag", g |-> Rnd({"i32", "f64"}), x |-> RSeq(m, IF Chance(3) THEN 0..2 ELSE 0..9), y |-> RSeq(m, IF Chance(3) THEN 0..3 ELSE 0..9), k |-> Rnd(0..20)]
    [] kind = "lcs" -> LET S == 1..Rnd(1..4) IN [op |-> "lcs", x |-> RSeq(Rnd(1..8), S), y |-> RSeq(Rnd(1..8), S)]
    [] kind = "slice" -> [op |-> "slice", g |-> Rnd({"i32", "f64"}), x |-> RSeq(Rnd(1..9), IF Chance(4) THEN -9..0 ELSE -9..9)]
    [] kind = "seed" -> [op |-> "seed", k |-> Rnd(1..3)]
    [] kind = "draw" ->
         LET f == Rnd({"int", "uniform", "perm", "sample", "binomial", "gauss0", "gauss", "uniformmat", "binomialmat"}) b == [op |-> "draw", f |-> f]
         IN (CASE f = "int" -> LET k == Rnd(-9..9) IN [k |-> k, n |-> k + Rnd({0, 0, 1, 2, 5, 100}), i |-> Rnd(1..3)] @@ b
              [] f = "uniform" -> LET k == Rnd(-9..9) IN [k |-> k, n |-> k + Rnd(1..3), i |-> Rnd(1..3)] @@ b
              [] f = "perm" -> [i |-> Rnd(1..9), k |-> 0, n |-> 0] @@ b
              [] f = "sample" -> [i |-> Rnd(1..4), k |-> 0, n |-> 0] @@ b
              [] f = "binomial" -> [k |-> Rnd({0, 4, 8, 13, 16}), n |-> Rnd(1..9), i |-> Rnd(1..3)] @@ b
              [] f = "gauss0" -> [k |-> Rnd(-9..9), n |-> 0, i |-> Rnd(1..2)] @@ b
              [] f = "gauss" -> [k |-> Rnd(-9..9), n |-> Rnd(1..9), i |-> Rnd(1..3)] @@ b
              [] f = "uniformmat" -> LET k == Rnd(0..9) IN [k |-> k, n |-> k + Rnd(1..3), i |-> Rnd(1..6)] @@ b
              [] f = "binomialmat" -> [k |-> Rnd({0, 4, 8, 16}), n |-> Rnd(1..9), i |-> Rnd(1..6)] @@ b)

\* What the generator has to know of the state.
Follow(c) ==
  IF c.op = "topnew" THEN TopNew(c) /\ UNCHANGED <<log, memo>>
  ELSE IF c.op = "topadd" THEN TopAdd(c) /\ UNCHANGED <<log, memo>>
  ELSE UNCHANGED avars

GInit == Init /\ hist = <<>> /\ n = 0
GNext == /\ n < Depth
         /\ n' = n + 1
         /\ \E kind \in {Kinds[RandomElement(1..Len(Kinds))]} :
            \E c \in {TLCEval(Command(kind))} : Follow(c) /\ hist' = Append(hist, c)
GSpec == GInit /\ [][GNext]_<<avars, hist, n>>
Emit == n < Depth \/ PrintT("PLAN " \o ToJson(hist))

KindsSort == <<"sort", "sort", "partition", "median", "extreme", "top", "top", "top", "top">>
KindsHelp == <<"help", "help", "help", "help", "help", "help", "ships", "split", "hist", "bag", "lcs", "slice">>
KindsDraw == <<"seed", "draw", "draw", "draw", "draw">>
=============================================================================
