----------------------------- MODULE HugeTrace -------------------------------
(* Checks a trace recorded from the real code against Huge. *)
EXTENDS Huge, Json, IOUtils, TLC

ASSUME PairsOK({0, 1, 63, 64, 65, 1000, Base - 1, Base, Base + 1, 2 * Base - 1, 3000001, 100000000})

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == Trace[l]

Step(op) ==
    CASE op = "hnew"    -> New(Ev.n, Ev.b)
      [] op = "hclone"  -> Clone
      [] op = "hget"    -> Get(Ev.chain, Ev.n)
      [] op = "hset"    -> Put(Ev.chain, Ev.n, Ev.b)
      [] op = "hflip"   -> Put(Ev.chain, Ev.n, 2)
      [] op = "hlen"    -> LenOf(Ev.chain)
      [] op = "hbits"   -> BitsOf(Ev.chain)
      [] op = "hscan"   -> Ev.b = bg /\ Scan(Ev.chain, Ev.n)
      [] op = "hpeek"   -> Ev.b = bg /\ Scan(Ev.chain, Zero)
      [] op = "heach"   -> Each(Ev.chain)
      [] op = "hwin"    -> SameStart(Ev.k, Ev.how)
      [] op = "hslide"  -> SameLength(Ev.k, Ev.how)
      [] op = "hparts"  -> SamePart(Ev.k)
      [] op = "hreject" -> Reject(Ev.chain, Ev.n)
      [] op = "hall"    -> All(Ev.chain, Ev.how)
      [] op = "hipeek"  -> IScan(Zero, FALSE)
      [] op = "hieach"  -> IEach
      [] op = "hibad"   -> iw < 64 /\ IEach
      [] op = "higrow"  -> IGrow(Ev.b, Ev.n)
      [] op = "hlast"   -> LastOf(Ev.chain, Ev.n)
      [] op = "hcount"  -> CountOf(Ev.chain, Ev.n)
      [] op = "hiscan"  -> IScan(Ev.n, Ev.rt \in {"own", "ownnext", "ownfold", "owncollect", "ownnth"})
      [] op = "heq"     -> Equal(Ev.chain, Ev.other)
      [] op = "hword"   -> Word(Ev.n)
      [] op = "hwords"  -> Words
      [] op = "hbuild"  -> Build
      [] op = "hrank"   -> Rank(Ev.b, Ev.n)
      [] op = "hselect" -> Select(Ev.n)
      [] op = "hinew"   -> INew(Ev.b, Ev.n)
      [] op = "higet"   -> IGet(Ev.n)
      [] op = "hiset"   -> ISet(Ev.n, Ev.v)
      [] op = "hipush"  -> IPush(Ev.v)
      [] op = "hilen"   -> ILen
      [] op = "hiwords" -> IWords
      [] OTHER          -> FALSE

\* What a scan found comes as a list, in the order in which it was found
SetOf(s) == {s[k] : k \in 1..Len(s)}
Seen == IF Ev.res[1] \in {"scan", "each"} THEN <<Ev.res[1], <<Ev.res[2][1], SetOf(Ev.res[2][2])>>>>
        ELSE IF Ev.res[1] = "wins" THEN <<"wins", SetOf(Ev.res[2])>> ELSE Ev.res

Expect(ok) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", l, hout'>>) /\ FALSE

TraceInit == HugeInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Ev.op)
    /\ Expect(hout' = Seen)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<hugeVars, l>>

TraceView == l

TraceReport == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
