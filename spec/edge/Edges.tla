-------------------------------- MODULE Edges -------------------------------
(***************************************************************************)
(* Edge detectors: gradient images, their magnitude, and the edges found.  *)
(* Elements are given in quarters; a pixel is <<row, column>> from 0.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES img,   \* number -> [h, w, v]: images lent to the detectors, in quarters
          det    \* number -> [low, high, size, l2, cache]
vars == <<img, det>>
Init == img = <<>> /\ det = <<>>
With(f, k, v) == (k :> v) @@ f
Without(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]

Pixels(h, w) == (0..(h - 1)) \X (0..(w - 1))
At(m, p) == IF p \in Pixels(m.h, m.w) THEN m.v[p[1] * m.w + p[2] + 1] ELSE 0
Abs(a) == IF a < 0 THEN -a ELSE a
Whole(q) == IF q < 0 THEN -((-q) \div 4) ELSE q \div 4       \* integer part of a number of quarters
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
Isqrt(n) == Root(n, 0, 2000)
\* Integer part of the magnitude of a gradient of x and y quarters.
Length(x, y, kind) == CASE kind = "L1" -> (Abs(x) + Abs(y)) \div 4
                        [] kind = "L2" -> Isqrt(((x * x) + (y * y)) \div 16)
                        [] kind = "square" -> ((x * x) + (y * y)) \div 16

---------------------------------------------------------------------------
(* Edges: pixels above the lower threshold that are largest along their    *)
(* gradient, rounded to one of four directions, and are joined through     *)
(* such pixels to one above the higher threshold.                          *)
\* The gradient lies less than 22.5 degrees from the row (column); tan 22.5 = sqrt 2 - 1.
Flat(x, y) == (x + y) * (x + y) < 2 * x * x
Steep(x, y) == y > x /\ (y - x) * (y - x) > 2 * x * x
Largest(M(_), p, gx, gy) ==
  LET x == Abs(gx) y == Abs(gy) m == M(p)
      s == IF (gx < 0) # (gy < 0) THEN -1 ELSE 1
  IN IF Flat(x, y) THEN m > M(<<p[1], p[2] - 1>>) /\ m >= M(<<p[1], p[2] + 1>>)
     ELSE IF Steep(x, y) THEN m > M(<<p[1] - 1, p[2]>>) /\ m >= M(<<p[1] + 1, p[2]>>)
     ELSE m > M(<<p[1] - 1, p[2] - s>>) /\ m > M(<<p[1] + 1, p[2] + s>>)
Near(p, q) == p # q /\ Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1
RECURSIVE Reach(_, _, _)
Reach(S, new, A) == IF new = {} THEN S
                    ELSE LET more == TLCEval({q \in A \ S : \E p \in new : Near(p, q)}) IN Reach(S \cup more, more, A)
EdgesOf(d, gx, gy, mag) ==
  LET P == Pixels(gx.h, gx.w)
      Ms == TLCEval([i \in 1..(gx.h * gx.w) |-> IF mag = <<>> THEN Length(gx.v[i], gy.v[i], IF d.l2 THEN "L2" ELSE "L1") ELSE Whole(mag.v[i])])
      M(p) == IF p \in P THEN Ms[p[1] * gx.w + p[2] + 1] ELSE 0
      weak == TLCEval({p \in P : M(p) > d.low /\ Largest(M, p, Whole(At(gx, p)), Whole(At(gy, p)))})
      strong == {p \in weak : M(p) > d.high}
  IN Reach(strong, strong, weak)

---------------------------------------------------------------------------
Same(a, b) == img[a].h = img[b].h /\ img[a].w = img[b].w
Enabled(c) ==
  CASE c.op = "image" -> Len(c.x) = c.y[1] * c.y[2] /\ Len(c.x) > 0
    [] c.op = "new" -> c.f \in {"plain", "two", "five"} /\ Len(c.x) = 5
    [] c.op = "set" -> c.k \in DOMAIN det /\ c.f \in {"low", "high", "size", "l2", "cache"}
    [] c.op = "copy" -> c.i \in DOMAIN det /\ (c.f = "construct" => c.k \notin DOMAIN det)
    [] c.op = "drop" -> c.k \in DOMAIN det
    [] c.op = "clear" -> c.k \in DOMAIN det
    [] c.op = "detect" -> /\ c.k \in DOMAIN det /\ Len(c.x) = 3 /\ c.x[1] \in DOMAIN img /\ c.x[2] \in DOMAIN img /\ Same(c.x[1], c.x[2])
                          /\ (c.x[3] = 0 \/ (c.x[3] \in DOMAIN img /\ Same(c.x[1], c.x[3]) /\ \A i \in DOMAIN img[c.x[3]].v : img[c.x[3]].v[i] >= 0))
    [] c.op = "wide" -> c.k \in DOMAIN det /\ c.y[1] >= 2 /\ (c.y[1] % 2) = 0 /\ c.y[2] >= 0
    [] c.op = "mag" -> c.f \in {"L1", "L2", "square"} /\ c.x[1] \in DOMAIN img /\ c.x[2] \in DOMAIN img /\ Same(c.x[1], c.x[2])
New(c) == CASE c.f = "plain" -> [low |-> 40, high |-> 100, size |-> 3, l2 |-> TRUE, cache |-> TRUE]
            [] c.f = "two" -> [low |-> c.x[1], high |-> c.x[2], size |-> 3, l2 |-> TRUE, cache |-> c.x[5] = 1]
            [] c.f = "five" -> [low |-> c.x[1], high |-> c.x[2], size |-> c.x[3], l2 |-> c.x[4] = 1, cache |-> c.x[5] = 1]
Set(d, f, v) == CASE f = "low" -> [d EXCEPT !.low = v] [] f = "high" -> [d EXCEPT !.high = v] [] f = "size" -> [d EXCEPT !.size = v]
                  [] f = "l2" -> [d EXCEPT !.l2 = v = 1] [] f = "cache" -> [d EXCEPT !.cache = v = 1]
Effect(c) ==
  CASE c.op = "image" -> img' = With(img, c.k, [h |-> c.y[1], w |-> c.y[2], v |-> c.x]) /\ UNCHANGED det
    [] c.op = "new" -> det' = With(det, c.k, New(c)) /\ UNCHANGED img
    [] c.op = "set" -> det' = With(det, c.k, Set(det[c.k], c.f, c.i)) /\ UNCHANGED img
    [] c.op = "copy" -> det' = With(det, c.k, det[c.i]) /\ UNCHANGED img
    [] c.op = "drop" -> det' = Without(det, c.k) /\ UNCHANGED img
    [] OTHER -> UNCHANGED vars
Flag(b) == IF b THEN 1 ELSE 0
IsPicture(r, h, w, V(_)) == SubSeq(r, 1, 2) = <<h, w>> /\ Len(r) = 2 + h * w /\ \A p \in Pixels(h, w) : r[3 + p[1] * w + p[2]] = V(p)
\* The images used last can be asked for; e.o: the integer parts of the magnitudes used.
IsDetected(e) ==
  LET d == det[e.k]
      gx == img[e.x[1]] gy == img[e.x[2]]
      mag == IF e.x[3] = 0 THEN <<>> ELSE img[e.x[3]]
      E == TLCEval(EdgesOf(d, gx, gy, mag))
  IN /\ IsPicture(e.r, gx.h, gx.w, LAMBDA p : IF p \in E THEN 255 ELSE 0)
     /\ IsPicture(e.s, gx.h, gx.w, LAMBDA p : At(gx, p)) /\ IsPicture(e.t, gx.h, gx.w, LAMBDA p : At(gy, p))
     /\ IsPicture(e.o, gx.h, gx.w, LAMBDA p : IF mag = <<>> THEN Length(At(gx, p), At(gy, p), IF d.l2 THEN "L2" ELSE "L1") ELSE Whole(At(mag, p)))
Answer(e) ==
  /\ e.changed = 0
  /\ CASE e.op = "detect" -> IsDetected(e)
       \* One row in which every second gradient is y[2] quarters along the row, the others 0: how many of the former and latter are edges.
       [] e.op = "wide" -> LET m == e.y[2] \div 4 d == det[e.k] IN e.r = <<IF m > 0 /\ m > d.low /\ m > d.high THEN e.y[1] \div 2 ELSE 0, 0>>
       [] e.op = "mag" -> LET gx == img[e.x[1]] IN IsPicture(e.r, gx.h, gx.w, LAMBDA p : Length(At(gx, p), At(img[e.x[2]], p), e.f))
       [] e.op \in {"new", "set", "copy"} -> LET d == det'[e.k] IN e.r = <<d.low, d.high, d.size, Flag(d.l2), Flag(d.cache)>>
       [] OTHER -> TRUE
Do(e) == Enabled(e) /\ Effect(e) /\ Answer(e)
=============================================================================
