----------------------------- MODULE MserTrace -----------------------------
(***************************************************************************)
(* Checks sessions recorded from the real classes against Mser.  Every     *)
(* line is one public call with its arguments and everything observable    *)
(* after it; it must be explained by the action of the same name.          *)
(***************************************************************************)
EXTENDS Mser, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, known

tvars == <<inst, res, l, known>>

TraceInit == Init /\ l = 1 /\ known = 0

ToPix(p) == {p[i] + 1 : i \in DOMAIN p}

\* The reported list as a set of regions; a repeated region or point is no region at all.
WellFormed(out) ==
  \A k \in 1..2 : \A i \in DOMAIN out[k] : out[k][i].s = Len(out[k][i].p) /\ Cardinality(ToPix(out[k][i].p)) = out[k][i].s
Regions(out) == TLCEval(<<{[g |-> m.g, pix |-> ToPix(m.p), rect |-> m.r] : m \in Range(out[1])},
                          {[g |-> m.g, pix |-> ToPix(m.p), rect |-> m.r] : m \in Range(out[2])}>>)
Faithful(out) == WellFormed(out) /\ \A k \in 1..2 : Cardinality(Regions(out)[k]) = Len(out[k])

Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Ev == Trace[l]

(***************************************************************************)
(* A recorded finding (see known-findings.txt): with 8 neighbours and more *)
(* than one partition, the fast algorithms connect partitions only through *)
(* straight pixel pairs.                                                   *)
(***************************************************************************)
Grid(i) ==
  CASE i.alg = "v1" -> (CASE i.threads = 1 -> <<1, 1>> [] i.threads = 2 -> <<1, 2>> [] i.threads = 4 -> <<2, 2>>
                          [] i.threads = 8 -> <<2, 4>> [] i.threads = 16 -> <<4, 4>> [] i.threads = 32 -> <<4, 8>>)
    [] i.alg = "v2" -> (CASE i.threads = 1 -> <<1, 1>> [] i.threads = 4 -> <<2, 2>> [] i.threads = 32 -> <<4, 8>>)
    [] OTHER -> <<1, 1>>
PartOf(n, parts, x) == Min({x \div (n \div parts), parts - 1})
SplitAdjacency(R, C, grid) ==
  [p \in 1..(R * C) |->
    {q \in Neighbours(R, C, 8, p) :
       \/ Row(C, p) = Row(C, q) \/ Col(C, p) = Col(C, q)
       \/ /\ PartOf(R, grid[1], Row(C, p)) = PartOf(R, grid[1], Row(C, q))
          /\ PartOf(C, grid[2], Col(C, p)) = PartOf(C, grid[2], Col(C, q))}]
KnownSplit(h, R, C, px, mask, got) ==
  /\ inst[h].prm.conn = 8 /\ Grid(inst[h]) # <<1, 1>>
  /\ Explains(Expected(inst[h], px, R, C, mask, SplitAdjacency(R, C, Grid(inst[h]))), got)

TNew == Is("new") /\ New(Ev.h, Ev.alg) /\ UNCHANGED known
TDel == Is("del") /\ Delete(Ev.h) /\ UNCHANGED known
TClear == Is("clear") /\ ClearCache(Ev.h) /\ UNCHANGED known
TSet == Is("set") /\ Set(Ev.h, Ev.k, Ev.v) /\ UNCHANGED known
TExt ==
  /\ Is("ext")
  /\ Ev.same = 1
  /\ Faithful(Ev.out)
  /\ LET got == Regions(Ev.out)
     IN /\ IF Justified(Ev.h, Ev.R, Ev.C, Ev.px, Ev.mask, got) THEN UNCHANGED known
           ELSE KnownSplit(Ev.h, Ev.R, Ev.C, Ev.px, Ev.mask, got) /\ known' = known + 1
        /\ Store(Ev.r, got)
TReset == Is("reset") /\ Reset /\ UNCHANGED known
TRes == Is("res") /\ Faithful(Ev.out) /\ Observe(Ev.r, Regions(Ev.out)) /\ UNCHANGED known
TCopy ==
  /\ (Is("copy") \/ Is("assign"))
  /\ Faithful(Ev.out)
  /\ Copy(Ev.a, Ev.b)
  /\ res'[Ev.b] = Regions(Ev.out)
  /\ UNCHANGED known
TDrop == Is("drop") /\ Drop(Ev.r) /\ UNCHANGED known
TRender ==
  /\ Is("render")
  /\ LET m == Ev.m
         x == Rendered([g |-> m.g, pix |-> ToPix(m.p), rect |-> m.r], Ev.C)
     IN /\ [g |-> m.g, pix |-> ToPix(m.p), rect |-> m.r] \in res[Ev.r][Ev.ch]
        /\ x.rows = Ev.rows /\ x.cols = Ev.cols /\ x.px = Ev.px
  /\ UNCHANGED vars /\ UNCHANGED known

TraceNext == TReset \/ TNew \/ TDel \/ TClear \/ TSet \/ TExt \/ TRes \/ TCopy \/ TDrop \/ TRender

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* Accepted when some behaviour consumes every line.  The number of recorded findings met is printed.
Accepted ==
  /\ PrintT(<<"LINES", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
Report == (l > Len(Trace)) => PrintT(<<"KNOWN", known>>)
=============================================================================
