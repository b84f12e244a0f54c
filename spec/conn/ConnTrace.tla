----------------------------- MODULE ConnTrace ------------------------------
(* Checks calls recorded from the real classes against Conn. *)
EXTENDS Conn, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TraceInit == Init /\ l = 1
TReset == l <= Len(Trace) /\ Ev.op = "reset" /\ l' = l + 1 /\ img' = <<>> /\ multi' = <<>> /\ one' = <<>>
TStep == l <= Len(Trace) /\ Ev.op \notin {"reset", "crash"} /\ l' = l + 1 /\ Do(Ev)
TraceSpec == TraceInit /\ [][TReset \/ TStep]_<<vars, l>>
Accepted == /\ PrintT(<<"LINES", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
