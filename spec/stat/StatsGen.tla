------------------------------ MODULE StatsGen ------------------------------
(* Random sessions (TLC -simulate) for drv_stat. *)
EXTENDS Stats, Json
CONSTANT Depth
VARIABLES hist, n
Rnd(S) == RandomElement(S)
Tags == {<<97>>, <<98>>, <<97, 98>>, <<97, 32, 99>>}
Command(what) ==
  CASE what = 1 -> [op |-> "init"]
    [] what = 2 -> [op |-> "report"]
    [] what \in 3..7 -> [op |-> "count", f |-> Rnd({"set", "add", "max"}), x |-> Rnd(Tags), n |-> Rnd(-9..9)]
    [] what = 8 -> [op |-> "par", k |-> Rnd(2..4), n |-> Rnd({1, 7, 50, 3000}), i |-> Rnd(-3..3), x |-> Rnd(Tags), y |-> Rnd(Tags)]
    [] what \in 9..11 -> [op |-> "clock", n |-> Rnd({0, 1, 400, 600, 999, 1000, 1001, 2500, 1000000, 2000001, 70000000})]
    [] what \in {12, 13} -> [op |-> "timer", k |-> Rnd(1..3), x |-> Rnd(Tags), i |-> Rnd(0..1), f |-> Rnd({"debug", "info"})]
    [] what \in {14, 15} -> [op |-> "begin", k |-> Rnd(1..3)]
    [] what \in {16, 17} -> [op |-> "end", k |-> Rnd(1..3)]
    [] what = 18 -> [op |-> Rnd({"cost", "restart", "drop"}), k |-> Rnd(1..3)]
    [] what = 19 -> [op |-> "out", k |-> Rnd(1..3), f |-> Rnd({"debug", "info"})]
    [] what = 20 -> [op |-> "tick"]
    [] what = 21 -> [op |-> "tester", f |-> Rnd({"silent", "silent", "assert"})]
    [] what \in 22..24 -> [op |-> "judge", f |-> Rnd({"test", "equal"}), i |-> Rnd(0..2), n |-> Rnd(0..2)]
    [] what = 25 -> [op |-> "untester"]
GInit == Init /\ hist = <<>> /\ n = 0
GNext == /\ n < Depth /\ n' = n + 1
         /\ \E what \in {IF n = 0 THEN 1 ELSE Rnd(1..25)} :
            \E c \in {TLCEval(Command(what))} :
               IF TLCEval(Enabled(c)) /\ now < 2000000000 THEN Effect(c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext]_<<vars, hist, n>>
Emit == n < Depth \/ PrintT("PLAN " \o ToJson(hist))
=============================================================================
