----------------------------- MODULE StringsGen -----------------------------
(* Random calls of the string functions (TLC -simulate) for drv_str.       *)
EXTENDS Strings, Json
CONSTANT Depth
VARIABLES hist, n
Rnd(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
Seq_(k, S) == [i \in 1..k |-> RandomElement(S)]
Few == {97, 98}
Mixed == {97, 65, 98, 66, 122, 90, 64, 91, 96, 123, 32, 9, 44, 195, 164, 48, 255}
Alphabet(d) == IF Chance(2) THEN Few ELSE Mixed
Short(S, m) == Seq_(Rnd(0..m), S)
\* Text that is rich in the given pieces.
RECURSIVE Rich(_, _, _)
Rich(tag, S, m) == IF m = 0 THEN <<>> ELSE (IF Chance(2) THEN tag ELSE Short(S, 2)) \o Rich(tag, S, m - 1)
\* A word and a changed copy of it.
RECURSIVE Edited(_, _)
Edited(w, S) == IF w = <<>> THEN Short(S, 1)
                ELSE LET r == RandomElement(1..9)
                     IN (IF r = 1 THEN <<>> ELSE IF r = 2 THEN <<RandomElement(S)>> ELSE IF r = 3 THEN <<w[1], RandomElement(S)>> ELSE <<w[1]>>) \o Edited(Tail(w), S)
Cost(d) == IF Chance(2) THEN 1 ELSE Rnd({0, 1, 2, 3, 7, 50, 300, 70000})
Limb(d) == IF Chance(2) THEN Rnd({0, 65535, 32768, 32767, 255, 1}) ELSE Rnd(0..65535)
RInt(w) ==
  LET a == Limb(0)
      neg == w \in SignedTypes /\ Chance(2)
      fill == IF neg THEN 65535 ELSE 0
      half == IF neg THEN 32768 + (Limb(1) % 32768) ELSE Limb(1) % 32768
      any == IF w = "i64" THEN half ELSE Limb(1)
  IN CASE w = "u8" -> <<a % 256, 0, 0, 0>> [] w = "u16" -> <<a, 0, 0, 0>> [] w = "i16" -> <<half, fill, fill, fill>>
       [] w = "u32" -> <<a, Limb(2), 0, 0>> [] w = "i32" -> <<a, half, fill, fill>> [] OTHER -> <<a, Limb(2), Limb(3), any>>
Value(f) ==
  CASE f = "b8" -> Rnd(0..1) [] f = "i8" -> Rnd(1..127) [] f = "u8" -> Rnd({0, 9, 10, 127, 128, 255, Rnd(0..255)}) [] f = "u16" -> Rnd({0, 65535, 32768, Rnd(0..65535)})
    [] f \in {"u32", "u64"} -> Rnd({0, 99999999, Rnd(0..100000)}) [] f = "i16" -> Rnd({-32768, 32767, 0, -1, Rnd(-999..999)}) [] f = "f32" -> Rnd({0, -1, 7, -8, 16777215, Rnd(-99999..99999)}) [] OTHER -> Rnd({0, -1, 7, -8, 99999999, Rnd(-99999..99999)})
Values(m, f) == [i \in 1..m |-> Value(f)]
RECURSIVE Climb(_, _)
Climb(m, v) == IF m = 0 THEN <<>> ELSE LET w == v + RandomElement(1..60) IN <<w>> \o Climb(m - 1, w)
Command(what, f, S, k) ==
  CASE what \in {1, 2} -> LET tag == IF Chance(8) THEN <<>> ELSE Seq_(Rnd(1..3), S) IN [op |-> "split", x |-> IF Chance(6) THEN <<>> ELSE Rich(tag, S, Rnd(1..6)), y |-> tag, f |-> Rnd({"out", "ret"})]
    [] what \in {3, 4} -> LET tag == IF Chance(8) THEN <<>> ELSE Seq_(Rnd(1..3), S)
                          IN [op |-> "replace", x |-> Rich(tag, S, Rnd(0..6)), z |-> tag, y |-> IF Chance(3) THEN tag \o Short(S, 2) ELSE Short(S, 3)]
    [] what = 5 -> LET ch == Rnd(S) IN [op |-> "trim", n |-> ch, x |-> Seq_(Rnd(0..3), {ch}) \o Short(S, 4)]
    [] what \in {6, 7} -> LET w == IF Chance(6) THEN Seq_(Rnd({15, 16, 31, 32, 40, 63, 64, 90}), S) ELSE Short(S, 9)
                          IN [op |-> "lev", x |-> w, y |-> IF Chance(5) THEN <<>> ELSE IF Chance(3) THEN Short(S, 9) ELSE IF Chance(14) THEN Seq_(Rnd(255..300), S) ELSE TLCEval(Edited(w, S)),
                              k |-> Cost(0), n |-> Cost(1), i |-> Cost(2), f |-> Rnd({"case", "nocase"})]
    [] what = 8 -> LET w == Short(S, 5) IN [op |-> "equal", x |-> w, y |-> IF Chance(3) THEN Upper(w) ELSE IF Chance(2) THEN Lower(w) ELSE Short(S, 5), f |-> Rnd({"case", "nocase"})]
    [] what = 9 -> [op |-> "case", x |-> Short(Mixed, 8), f |-> Rnd({"up", "low"})]
    [] what \in {10, 11} -> LET w == Rnd(SignedTypes \cup UnsignedTypes) IN [op |-> "big", k |-> k, f |-> w, x |-> RInt(w)]
    [] what = 12 -> [op |-> "val", k |-> k, f |-> f, n |-> Value(f)]
    [] what = 13 -> [op |-> "str", k |-> k, f |-> Rnd({"lit", "str"}), x |-> Short(S, 5)]
    [] what = 14 -> [op |-> "list", k |-> k, f |-> f, x |-> Values(Rnd(0..4), f)]
    [] what = 15 -> LET y == Seq_(Rnd(0..3), 0..2) IN [op |-> "lists", k |-> k, f |-> f, y |-> y, x |-> Values(SumTo(y, Len(y)), f)]
    [] what = 16 -> LET m == Rnd(0..4) IN [op |-> "map", k |-> k, f |-> f, x |-> TLCEval(Climb(m, Rnd(-90..90))), y |-> Values(m, f)]
    [] what = 17 -> [op |-> "cat", k |-> k, n |-> Rnd(1..3)]
    [] what = 18 -> [op |-> "fresh", k |-> k, x |-> Short(S, 4)]
    [] what = 19 -> [op |-> "const", k |-> k, n |-> Value("i32")]
    [] OTHER -> [op |-> "args", x |-> TLCEval(Join(Seq_(Rnd(1..4), {<<97>>, <<98, 97>>, <<>>}), <<0>>))]
GInit == Init /\ hist = <<>> /\ n = 0
GNext == /\ n < Depth /\ n' = n + 1
         /\ \E what \in {Rnd(1..20)} : \E f \in {Rnd(Types)} : \E S \in {Alphabet(0)} : \E k \in {Rnd(1..3)} :
            \E c \in {TLCEval(Command(what, f, S, k))} :
               IF TLCEval(Enabled(c)) THEN Effect(c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<svars, hist>>
GSpec == GInit /\ [][GNext]_<<svars, hist, n>>
Emit == n < Depth \/ PrintT("PLAN " \o ToJson(hist))
=============================================================================
