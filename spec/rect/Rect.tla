-------------------------------- MODULE Rect --------------------------------
(***************************************************************************)
(* Rectangles of pixels.  A rectangle is [l, t, w, h] and stands for the   *)
(* set of pixels with l <= x <= l+w-1 and t <= y <= t+h-1; what can be     *)
(* said with that set is said with it.  Rectangles live in variables and   *)
(* are changed in place or made from one another.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE rects    \* handle -> <<l, t, w, h>>

L(r) == r[1]
T(r) == r[2]
W(r) == r[3]
H(r) == r[4]
Right(r) == L(r) + W(r) - 1
Bottom(r) == T(r) + H(r) - 1
Pixels(r) == (L(r)..Right(r)) \X (T(r)..Bottom(r))
Box(l, t, r, b) == <<l, t, r - l + 1, b - t + 1>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* The smallest rectangle of a non-empty set of pixels.
Hull(S) ==
  LET xs == {p[1] : p \in S} ys == {p[2] : p \in S}
      lo(Z) == CHOOSE v \in Z : \A u \in Z : v <= u
      hi(Z) == CHOOSE v \in Z : \A u \in Z : v >= u
  IN Box(lo(xs), lo(ys), hi(xs), hi(ys))
Half(v) == v \div 2
\* Division of C++ truncates.
Quot(a, b) == IF (a < 0) # (b < 0) THEN -((IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)) ELSE (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
IsEmpty(r) == W(r) = 0 /\ H(r) = 0

Grow(r, a, b, c, d) == <<L(r) - a, T(r) - b, W(r) + a + c, H(r) + b + d>>
Expanded(r) == LET v == Max2(W(r), H(r)) - Min2(W(r), H(r)) h == Half(v)
               IN IF W(r) < H(r) THEN Grow(r, h, 0, v - h, 0) ELSE Grow(r, 0, h, 0, v - h)
Shrunk(r) == LET v == Max2(W(r), H(r)) - Min2(W(r), H(r)) h == Half(v)
             IN IF W(r) < H(r) THEN Grow(r, 0, -h, 0, h - v) ELSE Grow(r, -h, 0, h - v, 0)
Clamp(v, lo, hi) == Max2(lo, Min2(v, hi))
\* Corners in the wrong order are exchanged.
Normalized(r) == IF W(r) < 0 \/ H(r) < 0 THEN Box(Min2(L(r), Right(r)), Min2(T(r), Bottom(r)), Max2(L(r), Right(r)), Max2(T(r), Bottom(r))) ELSE r
Common(r, s) == Pixels(Normalized(r)) \cap Pixels(Normalized(s))
AppendPoint(r, p) == IF IsEmpty(r) THEN <<p[1], p[2], 1, 1>> ELSE Hull(Pixels(r) \cup {p})
AppendRect(r, s) == IF IsEmpty(r) THEN s ELSE Hull(Pixels(r) \cup Pixels(s))
OnBoundary(r, p) == p \in Pixels(r) /\ (p[1] \in {L(r), Right(r)} \/ p[2] \in {T(r), Bottom(r)})

\* The rectangle a command leaves in e.k, given the old one.
Result(e) ==
  LET r == IF e.k \in DOMAIN rects THEN rects[e.k] ELSE <<0, 0, 0, 0>>
      s == IF e.n \in DOMAIN rects THEN rects[e.n] ELSE <<0, 0, 0, 0>>
      x == e.x
  IN CASE e.f = "default" -> <<0, 0, 0, 0>>
       [] e.f \in {"make", "set", "sized", "setsized"} -> x
       [] e.f \in {"corners", "setcorners"} -> Box(x[1], x[2], x[3], x[4])
       [] e.f = "copy" -> s
       [] e.f = "settl" -> <<x[1], x[2], W(r), H(r)>>
       [] e.f = "setsize" -> <<L(r), T(r), x[1], x[2]>>
       [] e.f \in {"plus", "plusin"} -> <<L(s) + x[1], T(s) + x[2], W(s), H(s)>>
       [] e.f \in {"minus", "minusin"} -> <<L(s) - x[1], T(s) - x[2], W(s), H(s)>>
       [] e.f \in {"grow", "growin"} -> <<L(s), T(s), W(s) + x[1], H(s) + x[2]>>
       [] e.f \in {"less", "lessin"} -> <<L(s), T(s), W(s) - x[1], H(s) - x[2]>>
       [] e.f \in {"times", "timesin"} -> <<L(s) * x[1], T(s) * x[2], W(s) * x[1], H(s) * x[2]>>
       [] e.f \in {"over", "overin"} -> <<Quot(L(s), x[1]), Quot(T(s), x[2]), Quot(W(s), x[1]), Quot(H(s), x[2])>>
       [] e.f = "adjust" -> Grow(r, x[1], x[2], x[3], x[4])
       [] e.f = "empty" -> <<L(r), T(r), 0, 0>>
       [] e.f = "addpoint" -> AppendPoint(r, <<x[1], x[2]>>)
       [] e.f = "addrect" -> AppendRect(r, s)
       [] e.f = "expand" -> IF W(r) = H(r) THEN r ELSE Expanded(r)
       [] e.f = "shrink" -> IF W(r) = H(r) THEN r ELSE Shrunk(r)
       [] e.f = "normal" -> Normalized(r)
       \* r is brought into s corner by corner
       [] e.f = "validate" -> Box(Clamp(L(r), L(s), Right(s)), Clamp(T(r), T(s), Bottom(s)), Clamp(Right(r), L(s), Right(s)), Clamp(Bottom(r), T(s), Bottom(s)))

Proper(r) == W(r) >= 1 /\ H(r) >= 1
Inside(v) == v \in -1000..1000
Makers == {"default", "make", "set", "sized", "setsized", "corners", "setcorners"}
FromOther == {"copy", "plus", "minus", "grow", "less", "times", "over"}
\* In-place variants of operators: the same rectangle is operand and result.
InPlace == {"plusin", "minusin", "growin", "lessin", "timesin", "overin"}
Enabled(e) ==
  IF e.op = "do" THEN
    /\ e.f \in Makers \/ e.f \in FromOther \/ e.k \in DOMAIN rects
    /\ e.f \in FromOther \cup {"addrect", "validate"} => e.n \in DOMAIN rects
    /\ e.f \in InPlace => e.n = e.k
    /\ e.f \in {"over", "overin"} => e.x[1] # 0 /\ e.x[2] # 0
    /\ e.f = "addpoint" => Proper(rects[e.k]) \/ IsEmpty(rects[e.k])
    /\ e.f = "addrect" => (Proper(rects[e.k]) \/ IsEmpty(rects[e.k])) /\ Proper(rects[e.n])
    /\ e.f = "validate" => Proper(rects[e.n])
    /\ e.f \in {"expand", "shrink"} => Proper(rects[e.k])
    /\ \A i \in 1..4 : Inside(Result(e)[i])
    /\ Result(e)[3] * Result(e)[4] <= 2500        \* so that pixels can be counted
  ELSE
    /\ e.k \in DOMAIN rects
    /\ e.f \in {"meets", "meetsonly", "iou", "areashare", "widthshare", "heightshare", "areaover", "widthover", "heightover", "hdist", "vdist", "line", "holds", "eq"} => e.n \in DOMAIN rects
    /\ e.f \in {"areashare", "areaover", "iou", "widthshare", "heightshare", "widthover", "heightover", "line", "holds", "hdist", "vdist"} => Proper(rects[e.k]) /\ Proper(rects[e.n])
    /\ e.f \in {"meets", "meetsonly"} => \A r \in {rects[e.k], rects[e.n]} : (W(r) < 0 \/ H(r) < 0) \/ Proper(r) \/ IsEmpty(r)
    /\ e.f \in {"aspect", "boundary", "inboundary", "has"} => Proper(rects[e.k])

\* Does num / den, which the driver gives in ten-thousandths, have the value r?
Ratio(r, num, den) == LET d == r * den - num * 10000 IN d <= den /\ -d <= den
B(c) == IF c THEN 1 ELSE 0
Answer(e) ==
  LET r == rects[e.k]
      s == IF e.n \in DOMAIN rects THEN rects[e.n] ELSE r
      p == e.x
      C == Common(r, s)
  IN CASE e.f = "shape" -> e.r = <<Right(r), Bottom(r), L(r), T(r), Right(r), T(r), L(r), Bottom(r), Right(r), Bottom(r),
                                   W(r) * H(r), Max2(W(r), H(r)), Min2(W(r), H(r)), W(r), H(r), B(IsEmpty(r)),
                                   L(r) + Quot(W(r), 2), T(r) + Quot(H(r), 2)>>
       [] e.f = "eq" -> e.r = <<B(r = s), B(r # s)>>
       [] e.f = "has" -> e.r = B(<<p[1], p[2]>> \in Pixels(r))
       [] e.f = "holds" -> e.r = B(Pixels(s) \subseteq Pixels(r))
       [] e.f = "boundary" -> e.r = B(OnBoundary(r, <<p[1], p[2]>>))
       [] e.f = "inboundary" -> e.r = B(p[1] \in {L(r), Right(r)} \/ p[2] \in {T(r), Bottom(r)})
       [] e.f = "clamp" -> e.r = <<Clamp(p[1], L(r), Right(r)), Clamp(p[2], T(r), Bottom(r))>> \/ ~Proper(r)
       [] e.f = "meets" -> e.r[1] = B(C # {}) /\ (C # {} => SubSeq(e.r, 2, 5) = Hull(C))
       [] e.f = "meetsonly" -> e.r = B(C # {})
       [] e.f = "iou" -> Ratio(e.r, Cardinality(C), Cardinality(Pixels(r)) + Cardinality(Pixels(s)) - Cardinality(C))
       [] e.f = "areashare" -> Ratio(e.r, Cardinality(C), Cardinality(Pixels(s)))
       [] e.f = "widthshare" -> Ratio(e.r, IF C = {} THEN 0 ELSE W(Hull(C)), W(s))
       [] e.f = "heightshare" -> Ratio(e.r, IF C = {} THEN 0 ELSE H(Hull(C)), H(s))
       \* thresholds in eighths
       [] e.f = "areaover" -> e.r = B(C # {} /\ 8 * Cardinality(C) >= p[1] * Cardinality(Pixels(s)))
       [] e.f = "widthover" -> e.r = B(C # {} /\ 8 * W(Hull(C)) >= p[1] * W(s))
       [] e.f = "heightover" -> e.r = B(C # {} /\ 8 * H(Hull(C)) >= p[1] * H(s))
       [] e.f = "hdist" -> e.r = Max2(0, IF L(r) < L(s) THEN L(s) - Right(r) ELSE L(r) - Right(s))
       [] e.f = "vdist" -> e.r = Max2(0, IF T(r) < T(s) THEN T(s) - Bottom(r) ELSE T(r) - Bottom(s))
       [] e.f = "line" -> LET h == Min2(Bottom(r), Bottom(s)) - Max2(T(r), T(s))
                          IN e.r = B(8 * h >= p[1] * Min2(H(r), H(s)) \/ 8 * h >= p[2] * Max2(H(r), H(s)))
       [] e.f = "aspect" -> Ratio(e.r, W(r), H(r))

Init == rects = <<>>
Do(e) == IF e.op = "do" THEN rects' = (e.k :> Result(e)) @@ rects ELSE UNCHANGED rects
=============================================================================
