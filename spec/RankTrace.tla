----------------------------- MODULE RankTrace ------------------------------
(* Checks a trace recorded from the real code against RankStore. *)
EXTENDS RankStore, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev   == Trace[l]
A(i) == Ev.a[i]
\* The observed runs or segments; none if the call did not return any
Got(tag) == IF Ev.res[1] = tag THEN Ev.res[2] ELSE <<>>

Step(op) ==
    CASE op = "vec"    -> Create(A(1), Ev.s, Ev.c)
      [] op = "vchange" -> Change(Ev.s, Ev.c)
      [] op = "close"  -> Close
      [] op = "rbuild" -> Build
      [] op = "rank"   -> RankAsk(A(1), A(2))
      [] op = "rsweep" -> RankMany(0, vec.n, A(1), Got("runs"))
      [] op = "rwin"   -> RankMany(A(1), A(2), A(3), Got("runs"))
      [] op = "rlen"   -> LenAsk
      [] op = "rempty" -> EmptyAsk
      [] op = "select" -> SelectAsk(A(1))
      [] op = "ssweep" -> SelectMany(0, A(1) - 1, Got("runs"))
      [] op = "swin"   -> SelectMany(A(1), A(2), Got("runs"))
      [] op = "vsnap"  -> VecSnap(Got("runs"))
      [] op = "find"   -> FindAll(Ev.e, Got("segs"))
      [] OTHER         -> FALSE

Matches(want, got) ==
    /\ want[1] = got[1]
    /\ IF want[1] \in {"runs", "segs"} THEN want[2] = TRUE ELSE want[2] = got[2]

\* Reports what should have been observed
Expect(ok) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", l, out'>>) /\ FALSE

TraceInit == RankInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Ev.op)
    /\ Expect(Matches(out', Ev.res))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<rankVars, l>>

\* Asking changes nothing
AskingIsPure == [][built /\ built' => vec' = vec]_rankVars

\* A trace has one behaviour at most, so its states are told apart by their position
TraceView == l

TraceReport == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
