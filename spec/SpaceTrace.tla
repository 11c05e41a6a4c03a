----------------------------- MODULE SpaceTrace ------------------------------
(* Checks measurements of the real code against Space. *)
EXTENDS Space, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev   == Trace[l]
A(i) == Ev.a[i]
M    == Ev.res[2]

Step(op) ==
    CASE op = "bvnew"   -> BvNew(A(1), M)
      [] op = "bvclone" -> BvNew(A(1), M)
      [] op = "bvuse"   -> BvUse(M)
      [] op = "free"    -> Free(M)
      [] op = "ivnew"   -> IvNew(A(1), A(2), M, M[4])
      [] op = "ivpush"  -> IvPush(A(1), M, M[4])
      [] op = "index"   -> Index(A(1), M)
      [] OTHER          -> FALSE

Expect(ok) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", l, <<"within the limits", held, iv>>>>) /\ FALSE

TraceInit == SpaceInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ Ev.res[1] = "list"
    /\ Step(Ev.op)
    /\ Expect(fits')
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<spaceVars, l>>

\* A trace has one behaviour at most, so its states are told apart by their position
TraceView == l

TraceReport == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
