------------------------------ MODULE ConnGen -------------------------------
(* Random sessions (TLC -simulate) for drv_img. *)
EXTENDS Conn, Json
CONSTANT Depth
VARIABLES hist, n
Rnd(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
Some(S) == IF S = {} THEN 0 ELSE Rnd(S)
Image(d) ==
  LET h == Rnd(1..7) w == Rnd(1..7) ch == Rnd({1, 1, 3, 4}) vals == Rnd({{0, 1}, {0, 255}, {0, 0, 7, 200}, {3}})
  IN [op |-> "image", k |-> Rnd(1..3), f |-> IF ch = 1 /\ Chance(4) THEN "i32" ELSE "u8", g |-> Rnd({"plain", "part", "flip"}), y |-> <<h, w, ch>>,
      x |-> IF ch > 1 /\ Chance(2) THEN LET q == TLCEval([i \in 1..(h * w) |-> RandomElement(vals)]) IN [i \in 1..(h * w * ch) |-> q[(i - 1) \div ch + 1]] ELSE [i \in 1..(h * w * ch) |-> RandomElement(vals)]]
Kind(m) == Rnd({g \in {"helper", "u8", "i32", "u8x3"} : Fits(m, g)} \cup {"helper"})
Mask(m, f) ==
  CASE f = "null" -> <<>>
    [] f = "rect" -> LET l == Rnd(0..(m.w - 1)) t == Rnd(0..(m.h - 1)) IN <<l, t, Rnd(1..(m.w - l)), Rnd(1..(m.h - t))>>
    [] f = "image" -> LET one_ == Rnd({1, 2, 3}) IN [i \in 1..(m.h * m.w) |-> IF Chance(one_) THEN 1 ELSE Rnd({0, 0, 2, 255})]
    [] f = "value" -> IF Chance(3) THEN <<m.v[1], IF m.c > 1 THEN m.v[2] ELSE Rnd({0, 9}), IF m.c > 2 THEN m.v[3] ELSE 0, IF m.c > 3 THEN m.v[4] ELSE 0>>
                      ELSE LET v == Rnd({0, 1, 3, 7, 200, 255}) IN <<v, v, v, v>>
Color(d) == LET b == Rnd({0, 255, 1}) IN <<Rnd({0, 255, 128}), b, Rnd({0, 200}), Rnd({0, 255})>>
Roi(k) == IF multi[k] = {} \/ Chance(2) THEN <<0, 0, 7, 7>> ELSE LET b == Bounds(Everything(k)) g == Rnd(0..1) IN <<b[1] - g, b[2] - g, b[3] + 2 * g, b[4] + g>>
Command(what, im, mu, on) ==
  CASE what \in 1..3 -> Image(0)
    [] what \in 4..9 -> IF im = 0 THEN Image(0) ELSE LET g == Kind(img[im]) f == IF g = "helper" THEN "value" ELSE Rnd({"null", "rect", "image", "value"})
                                    IN [op |-> "label", k |-> Rnd(1..3), i |-> im, n |-> Rnd({4, 8}), f |-> f, g |-> g, y |-> Mask(img[im], f)]
    [] what \in 10..12 -> IF im = 0 THEN Image(0) ELSE LET g == Kind(img[im]) f == Rnd({"null", "rect", "image", "value"})
                                    IN [op |-> "single", k |-> Rnd(1..3), i |-> im, n |-> Rnd({4, 8}), f |-> f, g |-> g, y |-> Mask(img[im], f), z |-> <<Rnd(0..(img[im].h - 1)), Rnd(0..(img[im].w - 1))>>]
    [] what = 13 -> LET q == Rnd(0..5) IN [op |-> "make", k |-> Rnd(1..3), i |-> Rnd(0..1), z |-> [j \in 1..(2 * q) |-> RandomElement(-2..9)]]
    [] what = 14 -> [op |-> "copy", k |-> Rnd(1..3), i |-> on, f |-> Rnd({"assign", "construct"})]
    [] what = 15 -> [op |-> Rnd({"drop", "release"}), k |-> on]
    [] what = 16 -> [op |-> "copies", k |-> Rnd(1..3), i |-> mu, f |-> Rnd({"assign", "construct"})]
    [] what = 17 -> [op |-> "drops", k |-> mu]
    [] what = 18 -> IF mu = 0 THEN Image(0) ELSE [op |-> "picture", k |-> mu, i |-> Rnd(0..1), f |-> Rnd({"objects", "pointers"}), x |-> Color(0), y |-> Roi(mu), z |-> Color(1)]
    [] what = 19 -> [op |-> "chess", k |-> Rnd(1..9), n |-> Rnd(1..9), i |-> Rnd(1..4), y |-> <<Rnd(1..4)>>]
    [] what = 20 -> IF mu = 0 THEN Image(0) ELSE [op |-> "levels", k |-> mu, i |-> Rnd(0..1), y |-> <<7, Rnd(7..8)>>, z |-> [j \in 1..Rnd(1..3) |-> RandomElement({0, 5, 200, 255})]]
    [] what = 21 -> [op |-> "inside", y |-> <<Rnd(1..3), Rnd(1..3), Rnd(-1..3), Rnd(-1..3)>>]
GInit == Init /\ hist = <<>> /\ n = 0
GNext == /\ n < Depth /\ n' = n + 1
         /\ \E what \in {IF n = 0 THEN 1 ELSE Rnd(1..21)} : \E im \in {Some(DOMAIN img)} : \E mu \in {Some(DOMAIN multi)} : \E on \in {Some(DOMAIN one)} :
            \E c \in {TLCEval(Command(what, im, mu, on))} :
               IF TLCEval(Enabled(c)) THEN Effect(c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext]_<<vars, hist, n>>
Emit == n < Depth \/ PrintT("PLAN " \o ToJson(hist))
=============================================================================
