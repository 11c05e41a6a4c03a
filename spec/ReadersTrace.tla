---------------------------- MODULE ReadersTrace -----------------------------
(* Checks the answers that the threads of the real code got against Readers. *)
(* Each event carries the distinct answers a thread got to one query.        *)
EXTENDS Readers, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev   == Trace[l]
A(i) == Ev.a[i]

Step(op) ==
    CASE op = "world"  -> World
      [] op = "cvec"   -> MakeVec(A(1), A(2), Ev.s, Ev.c)
      [] op = "cint"   -> MakeInts(A(1), Ev.v)
      [] op = "build"  -> Share
      [] op = "get"    -> GetAsk(A(1), A(2))
      [] op = "rank"   -> RankAsk(A(1), A(2), A(3))
      [] op = "select" -> SelectAsk(A(1), A(2))
      [] op = "bits"   -> BitsAsk(A(1), A(2), A(3))
      [] op = "len"    -> LenAsk(A(1))
      [] op = "eq"     -> EqAsk(A(1), A(2), A(3), A(4), A(5), A(6))
      [] op = "raw"    -> RawAsk(A(1))
      [] op = "debug"  -> DebugAsk(A(1))
      [] op = "iget"   -> IntAsk(A(1), A(2))
      [] op = "ivals"  -> IntsAsk(A(1))
      [] OTHER         -> FALSE

Same(want, got) == want[1] = got[1] /\ want[2] = got[2]
Matches(want, got) ==
    IF got[1] = "each"
    THEN Len(got[2]) = 1 /\ Same(want, got[2][1])
    ELSE Same(want, got)

Expect(ok) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", l, out'>>) /\ FALSE

TraceInit == ReadersInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Ev.op)
    /\ Expect(Matches(out', Ev.res))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<readVars, l>>

\* A trace has one behaviour at most, so its states are told apart by their position
TraceView == l

TraceReport == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
