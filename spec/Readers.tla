------------------------------- MODULE Readers -------------------------------
(***************************************************************************)
(* Any number of readers share some objects.  Queries leave the objects    *)
(* as they are, so each query has one answer only, whichever thread asks   *)
(* it, however often, and whatever is asked before, after or meanwhile.    *)
(***************************************************************************)
EXTENDS Ranks

VARIABLES vecs,     \* slot -> vector
          ints,     \* slot -> sequence of values, as limbs
          frozen,   \* have the objects been shared?
          out       \* the only possible answer to the last query

readVars == <<vecs, ints, frozen, out>>

Empty == [x \in {} |-> 0]

ReadersInit == vecs = Empty /\ ints = Empty /\ frozen = FALSE /\ out = <<"ok", 0>>

World == vecs' = Empty /\ ints' = Empty /\ frozen' = FALSE /\ out' = <<"ok", 0>>

Put(f, s, v) == [x \in DOMAIN f \cup {s} |-> IF x = s THEN v ELSE f[x]]

MakeVec(s, n, segs, cum) ==
    /\ ~frozen
    /\ SegsOK(n, segs) /\ CumOK(segs, cum)
    /\ vecs' = Put(vecs, s, [n |-> n, segs |-> segs, cum |-> cum])
    /\ out' = <<"ok", 0>>
    /\ UNCHANGED <<ints, frozen>>
MakeInts(s, vals) ==
    /\ ~frozen
    /\ ints' = Put(ints, s, vals)
    /\ out' = <<"ok", 0>>
    /\ UNCHANGED <<vecs, frozen>>
Share == ~frozen /\ frozen' = TRUE /\ out' = <<"ok", 0>> /\ UNCHANGED <<vecs, ints>>

-----------------------------------------------------------------------------
Ask(r) == frozen /\ out' = r /\ UNCHANGED <<vecs, ints, frozen>>

R1(s, i)  == SegRank(vecs[s].segs, vecs[s].cum, i)
Sel(s, k) == SegSelect(vecs[s].segs, vecs[s].cum, k)
Bit(s, i) == R1(s, i + 1) - R1(s, i)
OnesIn(s, a, b) == [j \in 1..(R1(s, b) - R1(s, a)) |-> Sel(s, R1(s, a) + j - 1) - a]
Flag(b) == <<"bool", IF b THEN 1 ELSE 0>>

GetAsk(s, i)     == Ask(IF 0 <= i /\ i < vecs[s].n THEN <<"bool", Bit(s, i)>> ELSE <<"panic", 0>>)
RankAsk(s, i, t) == Ask(IF 0 <= i /\ i <= vecs[s].n
                        THEN <<"int", IF t = 1 THEN R1(s, i) ELSE i - R1(s, i)>>
                        ELSE <<"panic", 0>>)
SelectAsk(s, k)  == Ask(<<"int", Sel(s, k)>>)
BitsAsk(s, a, b) == Ask(IF 0 <= a /\ a <= b /\ b <= vecs[s].n
                        THEN <<"list", OnesIn(s, a, b)>> ELSE <<"panic", 0>>)
LenAsk(s)        == Ask(<<"int", vecs[s].n>>)
EqAsk(s, a, b, t, c, d) == Ask(Flag(b - a = d - c /\ OnesIn(s, a, b) = OnesIn(t, c, d)))
RawAsk(s)        == Ask(<<"list", OnesIn(s, 0, vecs[s].n)>>)
DebugAsk(s)      ==
    LET n == vecs[s].n
        Char(j) == CASE j % 3 = 1 -> 48 + Bit(s, (j - 1) \div 3)
                     [] j % 3 = 2 -> 44
                     [] OTHER     -> 32
    IN  Ask(<<"list", IF n = 0 THEN <<123, 125>>
                      ELSE <<123>> \o [j \in 1..(3 * n - 2) |-> Char(j)] \o <<125>>>>)
IntAsk(s, i)     == Ask(IF 0 <= i /\ i < Len(ints[s]) THEN <<"val", ints[s][i + 1]>>
                        ELSE <<"panic", 0>>)
IntsAsk(s)       == Ask(<<"vals", ints[s]>>)

\* While objects are shared they do not change
SharedIsConstant == [][frozen /\ frozen' => vecs' = vecs /\ ints' = ints]_readVars
=============================================================================
