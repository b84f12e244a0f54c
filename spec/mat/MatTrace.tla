------------------------------ MODULE MatTrace ------------------------------
(***************************************************************************)
(* Checks sessions recorded from the real mt_mat against Mat.  After every *)
(* command the driver reports all live matrices: sizes, channels, depth,   *)
(* the value of every cell in index order and the reference number.        *)
(***************************************************************************)
EXTENDS Mat, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<mem, mats, l>>

Ev == Trace[l]
\* obs is a sequence of [h, sz, ch, dep, ref, v]
Agrees ==
  /\ Len(Ev.obs) = Cardinality(DOMAIN mats')
  /\ \A i \in 1..Len(Ev.obs) :
       LET o == Ev.obs[i]
       IN /\ o.h \in DOMAIN mats'
          /\ LET v == mats'[o.h]
             IN /\ o.sz = v.sz /\ o.ch = v.ch /\ o.dep = v.dep
                /\ o.ref = References(mats', o.h)
                /\ o.v = [p \in 1..Len(v.at) |-> mem'[v.st][v.at[p]]]

TraceInit == Init /\ l = 1
TReset == l <= Len(Trace) /\ Ev.op = "reset" /\ l' = l + 1 /\ mem' = <<>> /\ mats' = <<>>
TStep ==
  /\ l <= Len(Trace) /\ Ev.op \notin {"reset", "crash"} /\ l' = l + 1
  /\ TLCEval(Enabled(Ev))
  /\ TLCEval(Ev.op = "ask" => Answers(Ev, Ev.r))
  /\ Do(Ev)
  /\ Agrees
TraceSpec == TraceInit /\ [][TReset \/ TStep]_tvars

Accepted ==
  /\ PrintT(<<"LINES", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
