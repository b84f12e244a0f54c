------------------------------- MODULE Strings ------------------------------
(***************************************************************************)
(* The string functions of basicsys.  Strings are sequences of bytes; each *)
(* call is judged by its definition.  text accumulates what is appended to *)
(* a combined string.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE text   \* handle -> what was combined so far
svars == <<text>>
Init == text = <<>>

RECURSIVE FlatS(_)
FlatS(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlatS(Tail(ss))
Counted(s) == <<Len(s)>> \o s
AtIndex(s, tag, i) == SubSeq(s, i, i + Len(tag) - 1) = tag
FirstAt(s, tag) == LET H == {i \in 1..(Len(s) - Len(tag) + 1) : AtIndex(s, tag, i)} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : i <= j
\* The parts between the occurrences of a tag; they do not overlap and are taken from the left.
RECURSIVE Parts(_, _)
Parts(s, tag) == LET i == FirstAt(s, tag) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Parts(SubSeq(s, i + Len(tag), Len(s)), tag)
Split(s, tag) == IF s = <<>> THEN <<>> ELSE IF tag = <<>> THEN <<s>> ELSE Parts(s, tag)
RECURSIVE Join(_, _)
Join(ps, tag) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o tag \o Join(Tail(ps), tag)
Replaced(s, new, old) == IF old = <<>> THEN s ELSE Join(Parts(s, old), new)
RECURSIVE TrimLeft(_, _)
TrimLeft(s, c) == IF s # <<>> /\ s[1] = c THEN TrimLeft(Tail(s), c) ELSE s
Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Upper(s) == [i \in DOMAIN s |-> Up(s[i])]
Lower(s) == [i \in DOMAIN s |-> Low(s[i])]

\* The least cost of turning a into b by inserting, replacing and deleting single characters.
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Row(_, _, _, _, _, _), Rows(_, _, _, _, _, _)
\* Row: the entries of the row after prev for the next character of a, left to right.
Row(prev, row, x, b, ins, c) ==
  LET j == Len(row)
  IN IF j > Len(b) THEN row
     ELSE Row(prev, Append(row, Min(Min(prev[j + 1] + c.del, row[j] + ins), prev[j] + (IF x = b[j] THEN 0 ELSE c.rep))), x, b, ins, c)
Rows(prev, a, i, b, ins, c) == IF i > Len(a) THEN prev[Len(b) + 1] ELSE Rows(TLCEval(Row(prev, <<prev[1] + c.del>>, a[i], b, ins, c)), a, i + 1, b, ins, c)
Distance(a, b, ins, rep, del) == Rows([j \in 1..(Len(b) + 1) |-> (j - 1) * ins], a, 1, b, ins, [rep |-> rep, del |-> del])

\* Numbers in decimal: limbs are four 16 bit digits, lowest first, two's complement.
\* Long division of the limbs <<l4, l3, l2, l1>> by ten.
Step(h, l) == LET t == h * 65536 + l IN <<t \div 10, t % 10>>
DivTen(v) == LET a == Step(0, v[4])
                 b == Step(a[2], v[3])
                 c == Step(b[2], v[2])
                 d == Step(c[2], v[1])
             IN <<<<d[1], c[1], b[1], a[1]>>, d[2]>>
RECURSIVE DigitsOf(_)
DigitsOf(v) == LET q == DivTen(v) IN IF q[1] = <<0, 0, 0, 0>> THEN <<48 + q[2]>> ELSE DigitsOf(q[1]) \o <<48 + q[2]>>
Negate(v) ==
  LET w == [i \in 1..4 |-> 65535 - v[i]]
      a == w[1] + 1
      b == w[2] + (a \div 65536)
      c == w[3] + (b \div 65536)
      d == w[4] + (c \div 65536)
  IN <<a % 65536, b % 65536, c % 65536, d % 65536>>
SignedTypes == {"i16", "i32", "i64"}
UnsignedTypes == {"u8", "u16", "u32", "u64"}
Width(w) == CASE w \in {"u8"} -> 8 [] w \in {"i16", "u16"} -> 16 [] w \in {"i32", "u32"} -> 32 [] OTHER -> 64
Above(v, from, x) == \A i \in from..4 : v[i] = x
InType(v, w) ==
  CASE w = "u8" -> v[1] < 256 /\ Above(v, 2, 0)
    [] w = "u16" -> Above(v, 2, 0)
    [] w = "u32" -> Above(v, 3, 0)
    [] w \in {"u64", "i64"} -> TRUE
    [] w = "i16" -> (v[1] < 32768 /\ Above(v, 2, 0)) \/ (v[1] >= 32768 /\ Above(v, 2, 65535))
    [] w = "i32" -> (v[2] < 32768 /\ Above(v, 3, 0)) \/ (v[2] >= 32768 /\ Above(v, 3, 65535))
    [] OTHER -> FALSE
IntText(w, v) == IF w \in SignedTypes /\ v[4] >= 32768 THEN <<45>> \o DigitsOf(Negate(v)) ELSE DigitsOf(v)
RECURSIVE Digits(_)
Digits(v) == IF v < 10 THEN <<48 + v>> ELSE Digits(v \div 10) \o <<48 + (v % 10)>>
Pad(d, m) == [i \in 1..m |-> IF i <= m - Len(d) THEN 48 ELSE d[i - (m - Len(d))]]
\* v eighths with so many decimal places
Eighths(v, places) ==
  LET a == IF v < 0 THEN -v ELSE v
  IN (IF v < 0 THEN <<45>> ELSE <<>>) \o Digits(a \div 8) \o <<46>> \o Pad(Digits((a % 8) * 125), 3) \o [i \in 1..(places - 3) |-> 48]
SmallInt(v) == IF v < 0 THEN <<45>> \o Digits(-v) ELSE Digits(v)
\* One value of a type given as an integer (reals in eighths).
ValueText(f, v) ==
  CASE f = "f32" -> Eighths(v, 7)
    [] f = "f64" -> Eighths(v, 16)
    [] f = "b8" -> (IF v = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
    [] f = "i8" -> <<v>>
    [] OTHER -> SmallInt(v)
Types == {"i32", "u32", "i16", "u16", "u8", "i64", "u64", "f32", "f64", "b8", "i8"}
Fits(f, v) ==
  CASE f = "b8" -> v \in 0..1 [] f = "i8" -> v \in 1..127 [] f = "u8" -> v \in 0..255 [] f \in {"u16"} -> v \in 0..65535
    [] f \in {"u32", "u64"} -> v \in 0..100000000 [] f = "i16" -> v \in -32768..32767
    [] f = "f32" -> v \in -16777216..16777216 [] f \in {"i32", "i64", "f64"} -> v \in -100000000..100000000
List(f, x) == <<91>> \o Join([i \in DOMAIN x |-> ValueText(f, x[i])], <<44, 32>>) \o <<93>>
\* x cut into pieces of the lengths y.
RECURSIVE SumTo(_, _)
SumTo(y, m) == IF m = 0 THEN 0 ELSE SumTo(y, m - 1) + y[m]
Lists(f, x, y) == <<91>> \o Join([i \in DOMAIN y |-> List(f, SubSeq(x, SumTo(y, i - 1) + 1, SumTo(y, i)))], <<44, 32>>) \o <<93>>
\* A map from x to y, keys ascending.
Entries(f, x, y) == <<123, 10>> \o FlatS([i \in DOMAIN x |-> SmallInt(x[i]) \o <<58>> \o ValueText(f, y[i]) \o <<10>>]) \o <<125>>
Rising(x) == \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]

Old(k) == IF k \in DOMAIN text THEN text[k] ELSE <<>>
Piece(c) ==
  CASE c.op = "big" -> IntText(c.f, c.x)
    [] c.op = "val" -> ValueText(c.f, c.n)
    [] c.op = "str" -> c.x
    [] c.op = "list" -> List(c.f, c.x)
    [] c.op = "lists" -> Lists(c.f, c.x, c.y)
    [] c.op = "map" -> Entries(c.f, c.x, c.y)
    [] c.op = "cat" -> Old(c.n)
Combining == {"big", "val", "str", "list", "lists", "map", "cat"}
NoZero(s) == 0 \notin {s[i] : i \in DOMAIN s}
Enabled(c) ==
  CASE c.op = "big" -> c.f \in SignedTypes \cup UnsignedTypes /\ Len(c.x) = 4 /\ InType(c.x, c.f)
    [] c.op = "val" -> Fits(c.f, c.n)
    [] c.op = "str" -> (c.f = "lit" => NoZero(c.x))
    [] c.op = "list" -> \A i \in DOMAIN c.x : Fits(c.f, c.x[i])
    [] c.op = "lists" -> SumTo(c.y, Len(c.y)) = Len(c.x) /\ \A i \in DOMAIN c.x : Fits(c.f, c.x[i])
    [] c.op = "map" -> Len(c.x) = Len(c.y) /\ Rising(c.x) /\ \A i \in DOMAIN c.y : Fits(c.f, c.y[i])
    [] c.op = "cat" -> c.n # c.k /\ c.n \in DOMAIN text
    [] c.op = "fresh" -> TRUE
    [] c.op = "const" -> c.k \in DOMAIN text /\ Fits("i32", c.n)
    [] c.op \in {"split", "replace", "trim", "lev", "equal", "case", "args"} -> TRUE
Effect(c) ==
  CASE c.op \in Combining -> text' = (c.k :> (Old(c.k) \o Piece(c))) @@ text
    [] c.op = "fresh" -> text' = (c.k :> c.x) @@ text
    [] OTHER -> UNCHANGED text

Flag(b) == IF b THEN 1 ELSE 0
Fold(c, s) == IF c.f = "nocase" THEN Upper(s) ELSE s
Answer(e) ==
  CASE e.op \in Combining \cup {"fresh"} -> e.r = text'[e.k]
    \* appending to a constant leaves it alone
    [] e.op = "const" -> e.r = text[e.k] \o SmallInt(e.n) /\ e.q = text[e.k]
    [] e.op = "split" -> LET ps == Split(e.x, e.y) IN e.r = FlatS([i \in DOMAIN ps |-> Counted(ps[i])])
    [] e.op = "replace" -> e.r = Replaced(e.x, e.y, e.z)
    [] e.op = "trim" -> e.r = TrimLeft(e.x, e.n)
    [] e.op = "lev" -> e.r = Distance(Fold(e, e.x), Fold(e, e.y), e.k, e.n, e.i)
    [] e.op = "equal" -> e.r = Flag(Fold(e, e.x) = Fold(e, e.y))
    [] e.op = "case" -> e.r = IF e.f = "up" THEN Upper(e.x) ELSE Lower(e.x)
    [] e.op = "args" -> LET ps == Split(e.x, <<0>>) IN e.r = FlatS([i \in DOMAIN ps |-> Counted(ps[i])])
Do(e) == Enabled(e) /\ Effect(e) /\ Answer(e)
=============================================================================
