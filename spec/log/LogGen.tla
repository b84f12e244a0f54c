------------------------------- MODULE LogGen -------------------------------
(* Random sessions of loggers (TLC -simulate) for drv_log. *)
EXTENDS Log, Json
CONSTANT Depth
VARIABLES hist, n
Rnd(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
Tags == {<<>>, <<97>>, <<97, 98>>, <<98>>, Performance, <<37, 115>>, <<65>>}
Word(d) == [i \in 1..Rnd({0, 1, 2, 5, 9}) |-> RandomElement({97, 98, 32, 37, 100, 115, 92, 195, 169, 60, 62})]
Dirs == {<<97, 47>>, <<98, 47>>, <<97, 47, 99, 47>>, <<97, 47, 99, 47>>, Blocked, Blocked \o <<97, 47>>}
Files_ == {<<>>, <<102>>, <<100, 47, 102, 46, 99>>, <<47, 100, 92, 103>>, <<100, 47>>}
Stamp(d) == [i \in 1..Rnd(0..3) |-> RandomElement({84, 58, 32, 49})]
Kind(d) == IF Chance(2) THEN "file" ELSE Rnd({"own", "own", "console", "ide"})
Long(d) == IF Chance(20) THEN Rnd({495, 499, 505, 1000, 1003}) ELSE Rnd(0..2)
Command(what) ==
  CASE what = 1 -> [op |-> "new", f |-> Kind(0), k |-> Rnd(1..4), n |-> Rnd(1..3), i |-> Rnd(0..1), x |-> Stamp(0), y |-> Rnd(Dirs)]
    [] what = 2 -> IF Chance(4) THEN [op |-> "release"] ELSE [op |-> "zone", n |-> Rnd(-12..14)]
    [] what = 3 -> [op |-> "level", f |-> Rnd(All), n |-> Rnd({0, 1, 1})]
    [] what = 4 -> [op |-> "filter", f |-> Rnd({"add", "set", "clear"}), x |-> Rnd(Tags), y |-> Rnd(Tags)]
    [] what \in 5..9 -> LET k == Long(0) IN [op |-> "log", f |-> Rnd(All), x |-> Rnd(Tags), y |-> IF k > 9 THEN [i \in 1..10 |-> Rnd({97, 98, 37})] ELSE Word(0), k |-> k, z |-> Rnd(Files_), n |-> Rnd({0, 7, 10, 12345, -3})]
    [] what \in 10..12 -> [op |-> "macro", f |-> Rnd(All \cup {"assert", "assert_message", "unsupport"}), g |-> Rnd({"plain", "tag"}), x |-> Rnd(Tags), y |-> Word(0), i |-> Rnd(0..1)]
    [] what = 13 -> [op |-> "dir", y |-> Rnd(Dirs)]
    [] what = 14 -> [op |-> "limit", f |-> Rnd({"logs", "files"}), n |-> Rnd(1..3)]
    [] what = 15 -> [op |-> "par", k |-> Rnd(2..4), n |-> Rnd(1..5), x |-> Rnd(Tags), y |-> SelectSeq(Word(0), LAMBDA b : b < 128), z |-> Rnd(Files_)]
GInit == Init /\ hist = <<>> /\ n = 0
GNext == /\ n < Depth /\ n' = n + 1
         /\ \E what \in {IF n = 0 THEN 1 ELSE Rnd(1..15)} : \E go \in {what # 1 \/ n = 0 \/ Chance(2)} :
            \E c \in {TLCEval(Command(what))} :
               IF go /\ TLCEval(Enabled(c)) THEN Effect(c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<lg, disk, hist>>
GSpec == GInit /\ [][GNext]_<<lg, disk, hist, n>>
Emit == n < Depth \/ PrintT("PLAN " \o ToJson(hist))
=============================================================================
