------------------------------ MODULE IntTrace ------------------------------
(* Checks a trace recorded from the real code against IntStore. *)
EXTENDS IntStore, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev   == Trace[l]
A(i) == Ev.a[i]

Step(op) ==
    CASE op = "inew"   -> New(A(1), A(2))
      [] op = "icap"   -> WithCapacity(A(1), A(2), A(3))
      [] op = "push"   -> PushVal(A(1), Ev.v)
      [] op = "pushes" -> PushAll(A(1), Ev.v)
      [] op = "iset"   -> SetVal(A(1), A(2), Ev.v)
      [] op = "iget"   -> GetVal(A(1), A(2))
      [] op = "isnap"  -> Snap(A(1))
      [] op = "iraw"   -> Raw(A(1))
      [] op = "iempty" -> IsEmpty(A(1))
      [] op = "ilenv"  -> LenOf(A(1))
      [] op = "iiter"  -> IterOpen(A(1), Ev.rt = "own")
      [] op = "close"  -> IterClose
      [] op = "next"   -> Next_
      [] op = "nth"    -> Nth(A(1))
      [] op = "ilen"   -> IterLen
      [] op = "ihint"  -> IterHint
      [] op = "adlen"  -> SkipLen(A(1))
      [] op = "drain" /\ Ev.rt = "next" -> DrainNext
      [] op = "drain" /\ Ev.rt # "next" -> DrainAll
      [] op = "count"  -> Count
      [] op = "last"   -> Last
      [] OTHER         -> FALSE

Matches(want, got) == want[1] = got[1] /\ want[2] = got[2]

\* Reports what should have been observed
Expect(ok) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", l, out'>>) /\ FALSE

TraceInit == IntInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Ev.op)
    /\ Expect(Matches(out', Ev.res))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<intVars, l>>

\* A trace has one behaviour at most, so its states are told apart by their position
TraceView == l

TraceReport == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
