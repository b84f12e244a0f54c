------------------------------ MODULE FilesGen ------------------------------
(* Random trees and sessions (TLC -simulate) for drv_file.                 *)
EXTENDS Files, Json
CONSTANT Depth
VARIABLES hist, n
Rnd(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
\* a, b, a.txt, b.txt.txt, txt, .txt, "x y", it's, -r, $a, A.TXT, c.d, and one of 250 letters
Texts == {<<97>>, <<98>>, <<97, 46, 116, 120, 116>>, <<98, 46, 116, 120, 116, 46, 116, 120, 116>>, <<116, 120, 116>>, <<46, 116, 120, 116>>, <<120, 32, 121>>,
          <<105, 116, 39, 115>>, <<45, 114>>, <<36, 97>>, <<65, 46, 84, 88, 84>>, <<99, 46, 100>>}
Long == [i \in 1..250 |-> 100]
Filters == {<<>>, <<46, 116, 120, 116>>, <<116>>, <<116, 120, 116>>, <<97, 46, 116, 120, 116>>, <<46, 100>>, <<98, 97, 46, 116, 120, 116>>, <<120>>}
RName(d) == IF Chance(2) THEN Rnd({<<97>>, <<98>>}) ELSE Rnd(Texts)
RPath(d) == LET ds == {p \in DOMAIN tree : Len(p) < 4}
            IN IF Chance(3) /\ DOMAIN tree # {<<>>} THEN Rnd(DOMAIN tree \ {<<>>}) ELSE IF Chance(5) THEN Rnd(ds) \o <<RName(0), RName(1)>> ELSE Rnd(ds) \o <<RName(0)>>
Some(t) == LET S == {p \in DOMAIN tree \ {<<>>} : tree[p].t = t} IN IF S = {} THEN RPath(0) ELSE Rnd(S)
Free(d) == LET S == {p \in DOMAIN tree : tree[p].t = "dir" /\ Len(p) < 4} IN Rnd(S) \o <<RName(0)>>
Chars == {97, 66, 46, 46, 47, 92, 32, 195}
Raw(d) == [i \in 1..Rnd(0..8) |-> RandomElement(Chars)]
Command(what, p, q) ==
  CASE what \in {1, 2} -> [op |-> "mkdir", i |-> Rnd(0..1), x |-> Bytes(IF Chance(40) THEN <<Long, Long, Long, Long, Long, RName(0)>> ELSE IF Chance(2) THEN Free(0) ELSE p)]
    [] what \in {3, 4} -> [op |-> "put", n |-> Rnd(1..9), x |-> Bytes(Free(0))]
    [] what = 5 -> [op |-> "link", x |-> Bytes(Free(0)), y |-> Bytes(Some("dir"))]
    [] what = 6 -> [op |-> "exist", x |-> Bytes(p)]
    [] what \in {7, 8} -> [op |-> "files", x |-> Bytes(IF Chance(3) THEN <<>> ELSE IF Chance(3) THEN p ELSE Some("dir")), y |-> Rnd(Filters), f |-> Rnd({"path", "name"})]
    [] what = 9 -> [op |-> "dirs", x |-> Bytes(IF Chance(3) THEN <<>> ELSE Some("dir"))]
    [] what = 10 -> [op |-> "rm", x |-> Bytes(IF Chance(2) THEN Some("file") ELSE IF Chance(2) THEN Some("link") ELSE p)]
    [] what = 11 -> LET f == Rnd({"plain", "force", "sub"}) IN [op |-> "rmdir", f |-> f, x |-> Bytes(IF f = "sub" /\ Chance(4) THEN <<>> ELSE IF Chance(4) THEN p ELSE Some("dir"))]
    [] what \in {12, 13} -> [op |-> "cp", i |-> Rnd(0..1), x |-> Bytes(IF Chance(5) THEN p ELSE Some("file")), y |-> Bytes(IF Chance(3) THEN Some("file") ELSE IF Chance(2) THEN Free(1) ELSE q)]
    [] what \in {14, 15} -> [op |-> "mv", i |-> Rnd(0..1), x |-> Bytes(IF Chance(5) THEN p ELSE Some("file")), y |-> Bytes(IF Chance(3) THEN Some("file") ELSE IF Chance(2) THEN Free(1) ELSE q)]
    [] OTHER -> LET f == Rnd({"name", "title", "ext", "dir", "dirname", "isdir"}) IN [op |-> "path", f |-> f, x |-> Raw(0) \o (IF f = "dirname" THEN <<Rnd({47, 92})>> ELSE <<>>)]
GInit == Init /\ hist = <<>> /\ n = 0
GNext == /\ n < Depth /\ n' = n + 1
         /\ \E what \in {Rnd(1..20)} : \E p \in {RPath(0)} : \E q \in {RPath(1)} :
            \E c \in {TLCEval(Command(what, p, q))} :
               IF TLCEval(Enabled(c)) THEN Effect(c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<tree, hist>>
GSpec == GInit /\ [][GNext]_<<tree, hist, n>>
Emit == n < Depth \/ PrintT("PLAN " \o ToJson(hist))
=============================================================================
