------------------------------- MODULE Ranks --------------------------------
(***************************************************************************)
(* What rank and select mean, and how to compute them for vectors that are *)
(* too large to be represented as sets.                                    *)
(*                                                                         *)
(* A large vector is given as a sequence of segments <<start, count,       *)
(* stride>> in increasing order whose extents do not overlap, along with   *)
(* the number of ones before each segment.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* The definitions
RankDef(ones, i)   == Cardinality({p \in ones : p < i})
\* 0-based; -1 if there is no such one
SelectDef(ones, k) ==
    IF k < 0 \/ k >= Cardinality(ones) THEN -1
    ELSE CHOOSE p \in ones : RankDef(ones, p) = k

\* The same for segments
SegOnes(segs) ==
    UNION {{segs[j][1] + k * segs[j][3] : k \in 0..(segs[j][2] - 1)} : j \in 1..Len(segs)}
SegLast(s)  == s[1] + (s[2] - 1) * s[3]
SegsOK(n, segs) ==
    /\ \A j \in 1..Len(segs) :
         /\ segs[j][1] >= 0 /\ segs[j][2] >= 1 /\ segs[j][3] >= 1
         /\ SegLast(segs[j]) < n
    /\ \A j \in 1..(Len(segs) - 1) : SegLast(segs[j]) < segs[j + 1][1]
\* cum[j] is the number of ones before segment j; it has one more element for the total
CumOK(segs, cum) ==
    /\ Len(cum) = Len(segs) + 1
    /\ cum[1] = 0
    /\ \A j \in 1..Len(segs) : cum[j + 1] = cum[j] + segs[j][2]

CeilDiv(x, y) == (x + y - 1) \div y
Least(x, y) == IF x < y THEN x ELSE y

\* The last segment in lo..hi that starts before i; lo - 1 if there is none
RECURSIVE SegBefore(_, _, _, _)
SegBefore(segs, i, lo, hi) ==
    IF lo > hi THEN hi
    ELSE LET mid == (lo + hi) \div 2
         IN  IF segs[mid][1] < i THEN SegBefore(segs, i, mid + 1, hi)
             ELSE SegBefore(segs, i, lo, mid - 1)

SegRank(segs, cum, i) ==
    LET j == SegBefore(segs, i, 1, Len(segs))
    IN  IF j = 0 THEN 0
        ELSE cum[j] + Least(segs[j][2], CeilDiv(i - segs[j][1], segs[j][3]))

\* The last segment in lo..hi with at most k ones before it
RECURSIVE SegHolding(_, _, _, _)
SegHolding(cum, k, lo, hi) ==
    IF lo > hi THEN hi
    ELSE LET mid == (lo + hi) \div 2
         IN  IF cum[mid] <= k THEN SegHolding(cum, k, mid + 1, hi)
             ELSE SegHolding(cum, k, lo, mid - 1)

SegSelect(segs, cum, k) ==
    IF k < 0 \/ k >= cum[Len(cum)] THEN -1
    ELSE LET j == SegHolding(cum, k, 1, Len(segs))
         IN  segs[j][1] + (k - cum[j]) * segs[j][3]

(***************************************************************************)
(* Observed sequences are abbreviated losslessly as runs                   *)
(* <<index, first, step, count>>: the elements from this index on are      *)
(* first, first + step, ...                                                *)
(***************************************************************************)
\* The runs cover the indices a..b
RunsCover(runs, a, b) ==
    IF Len(runs) = 0 THEN b = a - 1
    ELSE /\ runs[1][1] = a
         /\ \A j \in 1..Len(runs) :
              /\ runs[j][4] >= 1
              /\ runs[j][1] + runs[j][4] = IF j < Len(runs) THEN runs[j + 1][1] ELSE b + 1

\* They describe Val, which grows by 0 or 1 from each index to the next
RunsOfSlow(runs, a, b, Val(_)) ==
    /\ RunsCover(runs, a, b)
    /\ \A j \in 1..Len(runs) :
         LET r == runs[j] IN
           /\ r[2] = Val(r[1])
           /\ r[4] > 1 => /\ r[3] \in {0, 1}
                          /\ Val(r[1] + r[4] - 1) = r[2] + (r[4] - 1) * r[3]

\* They describe an arbitrary Val
RunsOf(runs, a, b, Val(_)) ==
    /\ RunsCover(runs, a, b)
    /\ \A j \in 1..Len(runs) :
         LET r == runs[j] IN
           \A k \in 0..(r[4] - 1) : Val(r[1] + k) = r[2] + k * r[3]
=============================================================================
