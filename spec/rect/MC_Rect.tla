------------------------------ MODULE MC_Rect ------------------------------
(***************************************************************************)
(* Every state two rectangles reach by small commands: the formulas on     *)
(* borders and the statements about sets of pixels say the same.           *)
(***************************************************************************)
EXTENDS Rect
CONSTANTS Span
\* Two rectangles, 1 and 2.
Cmds ==
  {[op |-> "do", f |-> "corners", k |-> k, n |-> k, x |-> x] : k \in 1..2, x \in {<<0, 0, 1, 0>>, <<2, 1, 1, 3>>, <<1, 2, 0, 0>>}}
  \cup {[op |-> "do", f |-> f, k |-> k, n |-> 3 - k, x |-> <<>>] : k \in 1..2, f \in {"normal", "expand", "shrink", "addrect", "validate", "empty"}}
  \cup {[op |-> "do", f |-> "addpoint", k |-> k, n |-> k, x |-> x] : k \in 1..2, x \in {<<0, 2>>, <<3, 1>>}}
  \cup {[op |-> "do", f |-> "plusin", k |-> k, n |-> k, x |-> x] : k \in 1..2, x \in {<<1, 0>>, <<0, -1>>}}
MInit == rects = <<<<0, 0, 1, 1>>, <<1, 1, 2, 1>>>>
MNext == \E c \in Cmds : TLCEval(Enabled(c)) /\ Do(c)
MSpec == MInit /\ [][MNext]_rects
Small == \A h \in {1, 2} : \A i \in 1..4 : rects[h][i] \in -2..Span

A == rects[1]
Z == rects[2]
MeetFormula == LET a == Normalized(A) z == Normalized(Z)
                   m == Box(Max2(L(a), L(z)), Max2(T(a), T(z)), Min2(Right(a), Right(z)), Min2(Bottom(a), Bottom(z)))
               IN (Common(A, Z) # {} <=> W(m) > 0 /\ H(m) > 0) /\ (Common(A, Z) # {} => m = Hull(Common(A, Z)))
HullFormula == Proper(A) /\ Proper(Z) => Hull(Pixels(A) \cup Pixels(Z)) = Box(Min2(L(A), L(Z)), Min2(T(A), T(Z)), Max2(Right(A), Right(Z)), Max2(Bottom(A), Bottom(Z)))
SquareBounds == Proper(A) => LET e == IF W(A) = H(A) THEN A ELSE Expanded(A) s == IF W(A) = H(A) THEN A ELSE Shrunk(A)
                             IN W(e) = H(e) /\ W(s) = H(s) /\ Pixels(A) \subseteq Pixels(e) /\ Pixels(s) \subseteq Pixels(A)
NormalTwice == Normalized(Normalized(A)) = Normalized(A)
ContainCorners == Proper(A) /\ Proper(Z) => (Pixels(Z) \subseteq Pixels(A) <=> <<L(Z), T(Z)>> \in Pixels(A) /\ <<Right(Z), Bottom(Z)>> \in Pixels(A))
=============================================================================
