------------------------------ MODULE FilesTrace ------------------------------
(* Checks calls recorded from the real file functions against Files. *)
EXTENDS Files, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TraceInit == Init /\ l = 1
TReset == l <= Len(Trace) /\ Ev.op = "reset" /\ l' = l + 1 /\ tree' = (<<>> :> Dir)
TStep == l <= Len(Trace) /\ Ev.op \notin {"reset", "crash"} /\ l' = l + 1 /\ Do(Ev)
TraceSpec == TraceInit /\ [][TReset \/ TStep]_<<tree, l>>
Accepted == /\ PrintT(<<"LINES", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
