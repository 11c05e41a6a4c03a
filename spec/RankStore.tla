----------------------------- MODULE RankStore ------------------------------
(***************************************************************************)
(* The abstract machine of the rank/select structure and of the search     *)
(* strategies it uses: a vector is created, structures are built on it     *)
(* and queried.                                                            *)
(***************************************************************************)
EXTENDS Ranks

VARIABLES vec,      \* the current vector
          built,    \* is a structure open on it?
          out       \* what must be observed: <<tag, predicate argument>>

rankVars == <<vec, built, out>>

NoVec == [live |-> FALSE, n |-> 0, segs |-> <<>>, cum |-> <<0>>]

Rank1(i)   == SegRank(vec.segs, vec.cum, i)
RankT(i, t) == IF t = 1 THEN Rank1(i) ELSE i - Rank1(i)
SelectT(k) == SegSelect(vec.segs, vec.cum, k)
Total      == vec.cum[Len(vec.cum)]

RankInit == vec = NoVec /\ built = FALSE /\ out = <<"ok", 0>>

Create(n, segs, cum) ==
    /\ ~vec.live
    /\ SegsOK(n, segs) /\ CumOK(segs, cum)
    /\ vec' = [live |-> TRUE, n |-> n, segs |-> segs, cum |-> cum]
    /\ out' = <<"ok", 0>>
    /\ UNCHANGED built

\* All bits are replaced, while nothing is built on them
Change(segs, cum) ==
    /\ vec.live /\ ~built
    /\ SegsOK(vec.n, segs) /\ CumOK(segs, cum)
    /\ vec' = [vec EXCEPT !.segs = segs, !.cum = cum]
    /\ out' = <<"ok", 0>>
    /\ UNCHANGED built

Build ==
    /\ vec.live /\ ~built
    /\ built' = TRUE
    /\ out' = <<"ok", 0>>
    /\ UNCHANGED vec

Close ==
    /\ vec.live
    /\ IF built THEN built' = FALSE /\ UNCHANGED vec
       ELSE vec' = NoVec /\ UNCHANGED built
    /\ out' = <<"ok", 0>>

Ask(r) == vec.live /\ built /\ out' = r /\ UNCHANGED <<vec, built>>

RankAsk(i, t) == Ask(IF 0 <= i /\ i <= vec.n THEN <<"int", RankT(i, t)>> ELSE <<"panic", 0>>)
SelectAsk(k)  == Ask(<<"list", <<SelectT(k)>>>>)
LenAsk        == Ask(<<"int", vec.n>>)
EmptyAsk      == Ask(<<"bool", IF vec.n = 0 THEN 1 ELSE 0>>)

\* Many queries at once, judged by whether the observed runs describe the right values
RankMany(a, b, t, runs) ==
    /\ 0 <= a /\ b <= vec.n
    /\ Ask(<<"runs", RunsOfSlow(runs, a, b, LAMBDA i : RankT(i, t))>>)
SelectMany(a, b, runs) ==
    Ask(<<"runs", RunsOf(runs, a, b, LAMBDA k : SelectT(k))>>)

\* The bits of the vector itself, which no query ever changes
VecSnap(runs) ==
    /\ vec.live /\ ~built
    /\ out' = <<"runs", RunsOf(runs, 0, Total - 1, LAMBDA k : SelectT(k))>>
    /\ UNCHANGED <<vec, built>>

-----------------------------------------------------------------------------
(* Search in the prefix counts of one block.  The answers for the ranks     *)
(* 0..4095 are observed as segments <<r0, r1, index, count>>.               *)

EntryOK(e) == /\ Len(e) = 7
              /\ \A j \in 1..7 : 0 <= e[j] /\ e[j] < 4096
              /\ \A j \in 1..6 : e[j] <= e[j + 1]
BlockOf(e, r)  == Cardinality({j \in 1..7 : e[j] <= r})
BeforeOf(e, r) == IF BlockOf(e, r) = 0 THEN 0 ELSE e[BlockOf(e, r)]

FindAll(e, segs) ==
    /\ EntryOK(e)
    /\ out' = <<"segs",
                /\ Len(segs) >= 1
                /\ segs[1][1] = 0 /\ segs[Len(segs)][2] = 4095
                /\ \A j \in 1..(Len(segs) - 1) : segs[j + 1][1] = segs[j][2] + 1
                /\ \A j \in 1..Len(segs) :
                     LET s == segs[j] IN
                       /\ s[1] <= s[2]
                       /\ s[3] = BlockOf(e, s[1]) /\ s[4] = BeforeOf(e, s[1])
                       /\ s[3] = BlockOf(e, s[2]) /\ s[4] = BeforeOf(e, s[2])>>
    /\ UNCHANGED <<vec, built>>
=============================================================================
