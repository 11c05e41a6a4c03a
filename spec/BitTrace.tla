------------------------------ MODULE BitTrace ------------------------------
(* Checks a trace recorded from the real code against BitStore. *)
EXTENDS BitStore, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l      \* next line of the trace

Ev  == Trace[l]
A(i) == Ev.a[i]
B(i) == Ev.a[i] = 1
SetOf(s) == {s[i] : i \in 1..Len(s)}

\* Does the result the specification demands equal the one that was recorded?
Matches(want, got) ==
    /\ want[1] = got[1]
    /\ CASE want[1] \in {"bits", "words"} ->
              /\ want[2][1] = got[2][1]
              /\ want[2][2] = SetOf(got[2][2])
              /\ Cardinality(want[2][2]) = Len(got[2][2])
         [] OTHER -> want[2] = got[2]

Step(op) ==
    CASE op = "new"   -> New(A(1), A(2), A(3), SetOf(Ev.w))
      [] op = "clone" -> Clone(A(1), A(2))
      [] op = "drop"  -> Drop(A(1))
      [] op = "snap"  -> Snap(A(1))
      [] op = "raw"   -> Raw(A(1))
      [] op = "debug" -> Debug(A(1))
      [] op = "eq"    -> Eq(A(1), A(2), A(3), A(4), A(5), A(6))
      [] op = "open"  -> Open(A(1))
      [] op = "close" -> Close
      [] op = "slice" -> Slice(A(1), B(2), A(3), A(4), A(5), A(6))
      [] op = "split" -> Split(A(1), B(2), A(3))
      [] op = "view"  -> View(A(1), B(2), A(3), A(4))
      [] op = "len"   -> LenOf(A(1))
      [] op = "empty" -> IsEmpty(A(1))
      [] op = "get"   -> Get(A(1), A(2))
      [] op = "set"   -> Set(A(1), A(2), B(3))
      [] op = "flip"  -> Flip(A(1), A(2))
      [] op = "wsnap" -> WinSnap(A(1))
      [] op = "iter"  -> Iter(A(1))
      [] op = "next"  -> Next_
      [] op = "nth"   -> Nth(A(1))
      [] op = "ilen"  -> IterLen
      [] op = "ihint" -> IterHint
      [] op = "adlen" -> SkipLen(A(1))
      [] op = "drain" /\ Ev.rt = "next" -> DrainNext
      [] op = "drain" /\ Ev.rt # "next" -> DrainAll
      [] op = "count" -> Count
      [] op = "last"  -> Last
      [] OTHER        -> FALSE

\* Reports what should have been observed
Expect(ok) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", l, out'>>) /\ FALSE

TraceInit == StoreInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Ev.op)
    /\ Expect(Matches(out', Ev.res))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<storeVars, l>>

\* How much of the trace is a behaviour of the specification
\* A trace has one behaviour at most, so its states are told apart by their position
TraceView == l

TraceReport == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
