----------------------------- MODULE XTaskTrace ------------------------------
(* Checks recorded runs of the real program against XTask. *)
EXTENDS XTask, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == Trace[l]
SetOf(s) == {s[j] : j \in 1..Len(s)}

Step(op) ==
    CASE op = "start"  -> Start(Ev.task, Ev.format, SetOf(Ev.files), Ev.stuck)
      [] op = "tests"  -> /\ Ev.instrumented
                          /\ RunTests(Ev.ok, SetOf(Ev.new))
      [] op = "probe"  -> Probe(Ev.ok)
      [] op = "report" -> Report(Ev.ok, Ev.format, Ev.file, SetOf(Ev.seen))
      [] op = "end"    -> /\ Ev.outside
                          /\ End(Ev.ok, SetOf(Ev.files), Ev.missing)
      [] OTHER         -> FALSE

TraceInit == TaskInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Ev.op)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<taskVars, l>>

\* A trace has one behaviour at most, so its states are told apart by their position
TraceView == l

TraceReport == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
