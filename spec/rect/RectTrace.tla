------------------------------ MODULE RectTrace ------------------------------
(* Checks recorded sessions with real rectangles against Rect; e.r of a "do" is the rectangle it left. *)
EXTENDS Rect, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TraceInit == Init /\ l = 1
TReset == l <= Len(Trace) /\ Ev.op = "reset" /\ l' = l + 1 /\ rects' = <<>>
TStep == /\ l <= Len(Trace) /\ Ev.op \notin {"reset", "crash"} /\ l' = l + 1
         /\ TLCEval(Enabled(Ev))
         /\ TLCEval(IF Ev.op = "do" THEN Ev.r = Result(Ev) ELSE Answer(Ev))
         /\ Do(Ev)
TraceSpec == TraceInit /\ [][TReset \/ TStep]_<<rects, l>>
Accepted == /\ PrintT(<<"LINES", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
