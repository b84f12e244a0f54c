------------------------------ MODULE EdgesGen ------------------------------
(* Random sessions (TLC -simulate) for drv_edge_img. *)
EXTENDS Edges, Json
CONSTANT Depth
VARIABLES hist, n
Rnd(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
Some(S) == IF S = {} THEN 0 ELSE Rnd(S)
\* Three images of one size: gradients of one kind and a magnitude.
Vals(what) == CASE what = 1 -> -8..8
                [] what = 2 -> {-1000, -400, -163, -100, -60, -41, -3, 0, 3, 41, 60, 100, 163, 400, 1000}
                [] what = 3 -> {-400, 0, 400}
                [] what = 4 -> {0, 4, 200}
                [] what = 5 -> -1000..1000
Image(d) ==
  LET near == img # <<>> /\ Chance(2)
      j == IF near THEN Rnd(DOMAIN img) ELSE 0
      h == IF near THEN img[j].h ELSE Rnd(1..6) w == IF near THEN img[j].w ELSE Rnd(1..6)
      k == Rnd(1..4) S == TLCEval(Vals(Rnd(1..5)))
  IN [op |-> "image", k |-> k, g |-> Rnd({"plain", "part", "flip"}), y |-> <<h, w>>,
           x |-> IF k = 4 THEN [i \in 1..(h * w) |-> Abs(RandomElement(S))] ELSE [i \in 1..(h * w) |-> RandomElement(S)]]
Low(d) == Rnd({0, 1, 2, 10, 24, 40, 99, 100, -1})
Peers(j) == {i \in DOMAIN img : Same(i, j)}
Detect(k, a) ==
  LET b == IF Chance(4) THEN a ELSE Rnd(Peers(a))
      m == Rnd(Peers(a) \cup {0})
      hi == IF Chance(3) \/ m = 0 THEN 0 ELSE IF \E i \in DOMAIN img[m].v : img[m].v[i] < 0 THEN 0 ELSE m
  IN [op |-> "detect", k |-> k, n |-> Rnd(0..3), x |-> <<a, b, hi>>]
Command(what, im, de) ==
  CASE what \in 1..5 -> Image(0)
    [] what = 6 -> [op |-> "new", k |-> Rnd(1..2), f |-> Rnd({"plain", "two", "five", "five"}), x |-> <<Low(0), Low(0), Rnd({3, 5}), Rnd(0..1), Rnd(0..1)>>]
    [] what \in 7..8 -> LET f == Rnd({"low", "high", "size", "l2", "cache"}) IN [op |-> "set", k |-> de, f |-> f, i |-> CASE f \in {"low", "high"} -> Low(0) [] f = "size" -> Rnd({3, 5, 7}) [] OTHER -> Rnd(0..1)]
    [] what = 9 -> [op |-> "copy", k |-> Rnd(1..2), i |-> de, f |-> Rnd({"assign", "construct"})]
    [] what = 10 -> [op |-> Rnd({"drop", "clear", "clear"}), k |-> de]
    [] what = 11 -> [op |-> "mag", f |-> Rnd({"L1", "L2", "square"}), n |-> Rnd(0..3), x |-> <<im, IF im = 0 THEN 0 ELSE Rnd(Peers(im))>>]
    [] what = 12 -> [op |-> "wide", k |-> de, y |-> <<2 * Rnd({1, 50, 400, 700, 1400, 1536, 1600, 2000, 4000}), Rnd({0, 3, 400, 404, 164})>>]
    [] OTHER -> IF im = 0 \/ de = 0 THEN Image(0) ELSE Detect(de, im)
GInit == Init /\ hist = <<>> /\ n = 0
GNext == /\ n < Depth /\ n' = n + 1
         /\ \E what \in {IF n = 0 THEN 1 ELSE IF n = 1 THEN 6 ELSE Rnd(1..21)} : \E im \in {Some(DOMAIN img)} : \E de \in {Some(DOMAIN det)} :
            \E c \in {TLCEval(Command(what, im, de))} :
               IF TLCEval(Enabled(c)) THEN Effect(c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext]_<<vars, hist, n>>
Emit == n < Depth \/ PrintT("PLAN " \o ToJson(hist))
=============================================================================
