------------------------------ MODULE DocGen --------------------------------
(* Random documents and ways to read them (TLC -simulate) for drv_doc.     *)
EXTENDS Doc, Json
CONSTANTS Depth, WriteUntil
VARIABLES hist, n

Rnd(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
Chars == {97, 98, 99, 65, 32, 46, 45, 34, 44, 39, 92, 47, 48, 195, 164}
RStr(k, S) == [i \in 1..k |-> RandomElement(S)]
Length(d) == IF Chance(4) THEN 0 ELSE RandomElement(1..6)
Limb(d) == IF Chance(2) THEN Rnd({0, 65535, 32768, 32767, 255, 128, 1}) ELSE Rnd(0..65535)
\* limbs of a value of type w
RInt(w) ==
  LET a == Limb(0)
      neg == Signed(w) /\ Chance(2)
      fill == IF neg THEN 65535 ELSE 0
      low == IF neg THEN 65408 + (a % 128) ELSE (IF w = "u8" THEN a % 256 ELSE a % 128)
      half == IF neg THEN 32768 + (Limb(1) % 32768) ELSE Limb(1) % 32768
  IN IF Chance(3) \/ Bits(w) = 8 THEN <<low, fill, fill, fill>>
     ELSE CASE w = "u16" -> <<a, 0, 0, 0>> [] w = "i16" -> <<half, fill, fill, fill>>
            [] w = "u32" -> <<a, Limb(1), 0, 0>> [] w = "i32" -> <<a, half, fill, fill>>
            [] w = "u64" -> <<a, Limb(1), Limb(2), Limb(3)>> [] OTHER -> <<a, Limb(1), Limb(2), half>>
Eighth(d) == IF Chance(3) THEN 8 * Rnd(-9..9) ELSE Rnd(-9999..9999)
Scalar(f) ==
  CASE f = "str" -> [op |-> "put", f |-> f, x |-> RStr(Length(0), Chars \cup {58})]
    [] f = "b8" -> [op |-> "put", f |-> f, n |-> Rnd(0..1)]
    [] f \in IntTypes -> [op |-> "put", f |-> f, x |-> RInt(f)]
    [] f \in RealTypes -> [op |-> "put", f |-> f, n |-> Eighth(0)]
Kinds == {"str", "str", "b8", "f32", "f64"} \cup IntTypes
Vec(f, g) ==
  LET m == Rnd(0..4)
      V == IF g \in RealTypes THEN -800..800 ELSE IF g = "u8" THEN 0..255 ELSE IF g = "i8" THEN -128..127 ELSE -30000..30000
      y == RStr(Rnd(0..3), 0..2)
  IN CASE f = "vec" -> [op |-> "vec", f |-> f, g |-> g, x |-> RStr(m, V)]
       [] f = "vec2" -> [op |-> "vec", f |-> f, g |-> g, y |-> y, x |-> RStr(SumTo(y, Len(y)), V)]
       [] f = "map" -> LET S == CHOOSE T \in {{97 + i : i \in 0..(m - 1)}} : TRUE
                       IN [op |-> "vec", f |-> f, g |-> g, y |-> [i \in 1..m |-> IF m > 1 THEN 98 + (((i - 1) + m - 2) % m) ELSE 97], x |-> RStr(m, V)]
OnlyKids(t) == \A j \in Names(Top) : Container(nodes[j].t) = t
WriteCommand(what, f, g) ==
  IF nodes = <<>> THEN [op |-> "new", f |-> g, g |-> Rnd({"mem", "file"}), k |-> IF g = "bin" /\ Chance(4) THEN 1 ELSE 0]
  ELSE IF n >= WriteUntil \/ Chance(14) THEN (IF Len(stack) > 1 THEN [op |-> "shut"] ELSE [op |-> "done"])
  ELSE IF InMap /\ key = <<>> THEN (IF what <= 3 /\ Len(stack) > 1 THEN [op |-> "shut"] ELSE [op |-> "key", x |-> RStr(IF Chance(3) THEN 1 ELSE Rnd(1..5), Chars)])
  ELSE IF ~InMap /\ what <= 3 /\ Len(stack) > 1 THEN [op |-> "shut"]
  ELSE LET box == IF how.form = "text" /\ ~InMap /\ Names(Top) # {} THEN OnlyKids(TRUE) ELSE what >= 9
       IN IF box THEN (IF Chance(3) THEN Vec(Rnd({"vec", "vec2", "map"}), Rnd({"i32", "f64", "u8", "i8", "f32", "i64"})) ELSE [op |-> "open", k |-> Rnd(0..1)])
          ELSE Scalar(f)
Others == {"str", "b8", "f64", "f32", "i32", "i64"} \cup IntTypes
ReadCommand(what, f) ==
  IF DOMAIN hand = {} \/ what = 1 THEN [op |-> "root", k |-> Rnd(1..3)]
  ELSE LET h == Rnd(DOMAIN hand)
           d == nodes[hand[h]]
           same == IF d.t = "seq" /\ d.kids # <<>> /\ ~Container(nodes[d.kids[1]].t) THEN nodes[d.kids[1]].w ELSE IF Container(d.t) \/ Chance(3) THEN f ELSE d.w
       IN IF what = 2 THEN [op |-> "kind", n |-> h]
          ELSE IF what = 3 THEN [op |-> "has", n |-> h, x |-> IF d.kids # <<>> /\ Chance(2) THEN nodes[d.kids[Rnd(1..Len(d.kids))]].name ELSE RStr(Rnd(1..3), Chars)]
          ELSE IF what = 4 THEN [op |-> "list", n |-> h, f |-> Rnd(IF d.t = "seq" THEN {"pre", "post", "back", "postback", "plus", "minus"} ELSE {"pre", "post", "back", "postback"})]
          ELSE IF what = 5 THEN [op |-> "vecof", n |-> h, f |-> same]
          ELSE IF what = 6 THEN [op |-> IF d.t = "map" THEN "mapof" ELSE "vec2of", n |-> h, f |-> f]
          ELSE IF Container(d.t) /\ d.kids # <<>> /\ ~(Single(d) /\ Chance(2)) THEN
                 LET i == Rnd(1..Len(d.kids))
                 IN [op |-> "at", k |-> Rnd(1..6), n |-> h, i |-> i - 1, f |-> IF d.t = "seq" THEN "index" ELSE Rnd({"str", "lit"}), x |-> nodes[d.kids[i]].name]
          ELSE [op |-> "get", n |-> h, f |-> same, g |-> Rnd({"op", "to"})]
GInit == Init /\ hist = <<>> /\ n = 0
GNext == /\ n < Depth /\ n' = n + 1
         /\ \E what \in {Rnd(1..12)} : \E f \in {Rnd(Kinds)} : \E g \in {Rnd({"text", "bin"})} :
            \E c \in {TLCEval(IF how.done THEN ReadCommand(what, f) ELSE WriteCommand(what, f, g))} :
               IF TLCEval(Enabled(c)) THEN Effect(c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<jvars, hist>>
GSpec == GInit /\ [][GNext]_<<jvars, hist, n>>
Emit == n < Depth \/ PrintT("PLAN " \o ToJson(hist))
=============================================================================
