------------------------------ MODULE MatValue ------------------------------
(***************************************************************************)
(* The values of matrix cells.  A cell of an integer depth holds its value;*)
(* a cell of a floating depth holds its value in sixteenths, so that       *)
(* everything stays exact.  Operations are used only where the exact       *)
(* result is representable (the Ok operators); there the code has no       *)
(* freedom.                                                                *)
(***************************************************************************)
EXTENDS Integers

Depths == {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"}
IsFloat(dep) == dep \in {"f32", "f64"}
Unit(dep) == IF IsFloat(dep) THEN 16 ELSE 1
Low(dep) == CASE dep \in {"u8", "u16", "u32", "u64"} -> 0 [] dep = "i8" -> -128 [] OTHER -> -30000
High(dep) == CASE dep = "u8" -> 255 [] dep = "i8" -> 127 [] OTHER -> 30000
Fits(dep, v) == Low(dep) <= v /\ v <= High(dep)

Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* Division that truncates, for b # 0.
Quot(a, b) == Sign(a) * Sign(b) * (Abs(a) \div Abs(b))
Divides(b, a) == b # 0 /\ (Abs(a) % Abs(b)) = 0

Conv(from, to, v) ==
  IF IsFloat(from) = IsFloat(to) THEN v
  ELSE IF IsFloat(to) THEN v * 16 ELSE Quot(v, 16)
ConvOk(from, to, v) ==
  /\ (IsFloat(to) /\ ~IsFloat(from)) => Abs(v) <= 1800
  /\ Fits(to, Conv(from, to, v))
  \* a fraction below zero has no defined unsigned value, though it truncates to zero
  /\ (IsFloat(from) /\ ~IsFloat(to) /\ Low(to) = 0) => v >= 0

Op(dep, o, a, b) ==
  CASE o = "add" -> a + b
    [] o = "sub" -> a - b
    [] o = "mul" -> Quot(a * b, Unit(dep))
    [] o = "div" -> Quot(a * Unit(dep), b)
OpOk(dep, o, a, b) ==
  CASE o \in {"add", "sub"} -> Fits(dep, Op(dep, o, a, b))
    [] o = "mul" -> Divides(Unit(dep), a * b) /\ Fits(dep, Op(dep, o, a, b))
    [] o = "div" -> b # 0 /\ (IsFloat(dep) => Divides(b, a * 16)) /\ Fits(dep, Op(dep, o, a, b))

Compare(task, a, b) ==
  CASE task = "bigger" -> a > b [] task = "smaller" -> a < b [] task = "same" -> a = b
    [] task = "nonbigger" -> a <= b [] task = "nonsmaller" -> a >= b

\* Powers: k is the exponent in halves.
RECURSIVE IPow(_, _, _)
IPow(dep, a, n) == IF n = 0 THEN Unit(dep) ELSE Quot(IPow(dep, a, n - 1) * a, Unit(dep))
RECURSIVE IPowOk(_, _, _)
IPowOk(dep, a, n) ==
  IF n = 0 THEN TRUE ELSE IPowOk(dep, a, n - 1) /\ Divides(Unit(dep), IPow(dep, a, n - 1) * a) /\ Fits(dep, IPow(dep, a, n))
Root(x) == IF \E r \in 0..180 : r * r = x THEN CHOOSE r \in 0..180 : r * r = x ELSE -1
Pow(dep, a, k) == IF (k % 2) = 0 THEN IPow(dep, a, k \div 2) ELSE Root(a * Unit(dep))
PowOk(dep, a, k) ==
  IF (k % 2) = 0 THEN IPowOk(dep, a, k \div 2)
  ELSE k = 1 /\ a >= 0 /\ a <= 2000 /\ Root(a * Unit(dep)) >= 0
=============================================================================
