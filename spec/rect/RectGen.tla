------------------------------- MODULE RectGen -------------------------------
(* Random sessions with rectangles (TLC -simulate) for the driver drv_rect. *)
EXTENDS Rect, Json
CONSTANTS Depth
VARIABLES hist, n
Rnd(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
Near(k) == Rnd(-2..2)
RBox(x) == <<Rnd(-4..6), Rnd(-4..6), Rnd(1..8), Rnd(1..8)>>
\* A point near a rectangle: often on its border.
RPoint(r) == <<Rnd({L(r) - 1, L(r), L(r) + Half(W(r)), Right(r), Right(r) + 1, Rnd(-6..16)}), Rnd({T(r) - 1, T(r), T(r) + Half(H(r)), Bottom(r), Bottom(r) + 1, Rnd(-6..16)})>>
DoForms == {"default", "make", "make", "set", "sized", "setsized", "corners", "corners", "setcorners", "copy", "settl", "setsize", "plus", "minus", "grow", "less", "plusin", "minusin",
            "growin", "lessin", "times", "timesin", "over", "overin", "adjust", "empty", "addpoint", "addrect", "expand", "shrink", "normal", "validate"}
AskForms == {"shape", "eq", "has", "holds", "boundary", "inboundary", "clamp", "meets", "meetsonly", "iou", "areashare", "widthshare", "heightshare", "areaover", "widthover", "heightover",
             "hdist", "vdist", "line", "aspect"}
Command(ask, k, o) ==
  IF ask THEN
    \* f is bound by a set so that it is drawn once
    CHOOSE c \in {[op |-> "ask", f |-> f, k |-> k, n |-> o,
                   x |-> IF f \in {"has", "boundary", "inboundary", "clamp"} THEN RPoint(rects[k]) ELSE IF f \in {"areaover", "widthover", "heightover", "line"} THEN <<Rnd(1..8), Rnd(1..8)>> ELSE <<>>] : f \in {Rnd(AskForms)}} : TRUE
  ELSE
    CHOOSE c \in {[op |-> "do", f |-> f, k |-> k, n |-> IF f \in InPlace THEN k ELSE o,
                   x |-> CASE f \in {"make", "set", "sized", "setsized"} -> (IF Chance(6) THEN <<Rnd(-3..3), Rnd(-3..3), Rnd(-3..4), Rnd(-3..4)>> ELSE RBox(0))
                           [] f \in {"corners", "setcorners"} -> (IF Chance(4) THEN <<Rnd(-4..6), Rnd(-4..6), Rnd(-4..6), Rnd(-4..6)>>
                                                                   ELSE <<Rnd(-4..3), Rnd(-4..3), Rnd(3..9), Rnd(3..9)>>)
                           [] f \in {"settl", "plus", "minus", "plusin", "minusin"} -> <<Rnd(-6..6), Rnd(-6..6)>>
                           [] f \in {"setsize"} -> <<Rnd(0..7), Rnd(0..7)>>
                           [] f \in {"grow", "growin", "less", "lessin"} -> <<Rnd(0..3), Rnd(0..3)>>
                           [] f \in {"times", "timesin", "over", "overin"} -> <<Rnd({1, 2, 3}), Rnd({1, 2, 3})>>
                           [] f = "adjust" -> <<Near(0), Near(0), Near(0), Near(0)>>
                           [] f = "addpoint" -> (IF k \in DOMAIN rects THEN RPoint(rects[k]) ELSE <<0, 0>>)
                           [] OTHER -> <<>>] : f \in {Rnd(DoForms)}} : TRUE
GInit == Init /\ hist = <<>> /\ n = 0
GNext == /\ n < Depth /\ n' = n + 1
         /\ \E k \in {Rnd(1..4)} : \E o \in {Rnd(1..4)} :
            \E c \in {TLCEval(Command(k \in DOMAIN rects /\ Chance(2), k, o))} :
               IF TLCEval(Enabled(c)) THEN Do(c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<rects, hist>>
GSpec == GInit /\ [][GNext]_<<rects, hist, n>>
Emit == n < Depth \/ PrintT("PLAN " \o ToJson(hist))
=============================================================================
