------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* What the system measures about itself: counters of sys_alg_analyzer,    *)
(* timers over a clock, and the verdicts a sys_tester has taken.           *)
(* Counters are in units of the driver's (10^9), times in milliseconds     *)
(* with the microseconds apart.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES live, info,    \* the analyzer: in use; tag -> value
          now,           \* the clock, in microseconds
          timers,        \* id -> [name, cost, count, from, auto]
          tester         \* [type, right, all], type "none" without one
vars == <<live, info, now, timers, tester>>
NoTester == [type |-> "none", right |-> 0, all |-> 0]
Init == live = FALSE /\ info = <<>> /\ now = 0 /\ timers = <<>> /\ tester = NoTester

With(f, k, v) == (k :> v) @@ f
Max(a, b) == IF a > b THEN a ELSE b
Added(m, t, v) == With(m, t, (IF t \in DOMAIN m THEN m[t] ELSE 0) + v)
Raised(m, t, v) == With(m, t, IF t \in DOMAIN m THEN Max(m[t], v) ELSE v)

Enabled(c) ==
  CASE c.op = "init" -> ~live
    [] c.op = "report" -> live
    [] c.op = "count" -> TRUE
    [] c.op = "par" -> live /\ c.k \in 1..8 /\ c.n \in 1..3000 /\ c.x # c.y
    [] c.op = "clock" -> c.n >= 0
    [] c.op = "timer" -> c.k \notin DOMAIN timers
    [] c.op \in {"begin", "cost", "restart", "out", "drop"} -> c.k \in DOMAIN timers
    [] c.op = "end" -> c.k \in DOMAIN timers /\ timers[c.k].from >= 0
    [] c.op = "tick" -> TRUE
    [] c.op = "tester" -> tester.type = "none"
    [] c.op \in {"judge", "untester"} -> tester.type # "none"
Same(S) == /\ "a" \notin S => UNCHANGED <<live, info>> /\ TRUE
           /\ "c" \notin S => UNCHANGED now
           /\ "t" \notin S => UNCHANGED timers
           /\ "j" \notin S => UNCHANGED tester
Verdict(c) == IF c.f = "equal" THEN c.n = c.i ELSE c.i # 0
Effect(c) ==
  CASE c.op = "init" -> live' = TRUE /\ info' = <<>> /\ Same({"a"})
    [] c.op = "report" -> live' = FALSE /\ info' = <<>> /\ Same({"a"})
    [] c.op = "count" -> /\ info' = (IF ~live THEN info ELSE CASE c.f = "set" -> With(info, c.x, c.n) [] c.f = "add" -> Added(info, c.x, c.n) [] c.f = "max" -> Raised(info, c.x, c.n))
                         /\ live' = live /\ Same({"a"})
    [] c.op = "par" -> info' = Raised(Added(info, c.x, c.k * c.n * c.i), c.y, c.k * c.n) /\ live' = live /\ Same({"a"})
    [] c.op = "clock" -> now' = now + c.n /\ Same({"c"})
    [] c.op = "timer" -> timers' = With(timers, c.k, [name |-> c.x, cost |-> 0, count |-> 0, from |-> -1, auto |-> c.i, level |-> c.f]) /\ Same({"t"})
    [] c.op = "begin" -> timers' = [timers EXCEPT ![c.k] = [@ EXCEPT !.from = now, !.count = @ + 1]] /\ Same({"t"})
    [] c.op = "end" -> timers' = [timers EXCEPT ![c.k] = [@ EXCEPT !.cost = @ + ((now - timers[c.k].from) \div 1000)]] /\ Same({"t"})
    [] c.op = "restart" -> timers' = [timers EXCEPT ![c.k] = [@ EXCEPT !.cost = 0, !.count = 0]] /\ Same({"t"})
    [] c.op = "drop" -> timers' = [k \in DOMAIN timers \ {c.k} |-> timers[k]] /\ Same({"t"})
    [] c.op = "tester" -> tester' = [type |-> c.f, right |-> 0, all |-> 0] /\ Same({"j"})
    [] c.op = "untester" -> tester' = NoTester /\ Same({"j"})
    [] c.op = "judge" -> tester' = (IF tester.type = "assert" THEN tester ELSE [tester EXCEPT !.all = @ + 1, !.right = @ + (IF Verdict(c) THEN 1 ELSE 0)]) /\ Same({"j"})
    [] OTHER -> UNCHANGED vars

\* Lists of counted strings with one number each.
RECURSIVE Items(_, _)
Items(r, i) == IF i > Len(r) THEN <<>> ELSE <<<<SubSeq(r, i + 1, i + r[i]), r[i + r[i] + 1]>>>> \o Items(r, i + 2 + r[i])
\* A timer says its name, its cost and how often it ran, at the level asked for.
Says(r, t, level) == r = <<1, IF level = "debug" THEN 1 ELSE 2, Len(t.name)>> \o t.name \o <<t.cost, t.count>>
Answer(e) ==
  CASE e.op = "report" -> LET it == TLCEval(Items(e.r, 1)) IN Len(it) = Cardinality(DOMAIN info) /\ {it[i] : i \in DOMAIN it} = {<<t, info[t]>> : t \in DOMAIN info}
    [] e.op = "tick" -> e.r = now \div 1000
    [] e.op = "cost" -> e.r = timers[e.k].cost
    [] e.op = "out" -> Says(e.r, timers[e.k], e.f)
    [] e.op = "drop" -> IF timers[e.k].auto = 1 THEN Says(e.r, timers[e.k], timers[e.k].level) ELSE e.r = <<0>>
    \* Without verdicts or in assertions only failures are told, as errors, at once.
    [] e.op = "judge" -> e.r = (IF tester.type = "assert" /\ ~Verdict(e) THEN 1 ELSE 0)
    [] e.op = "untester" -> e.r = (IF tester.type # "silent" THEN <<>> ELSE IF tester.all = 0 THEN <<0>> ELSE <<tester.all, tester.right>>)
    [] OTHER -> TRUE
Do(e) == Enabled(e) /\ Effect(e) /\ Answer(e)
=============================================================================
