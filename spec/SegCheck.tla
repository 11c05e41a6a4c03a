----------------------------- MODULE SegCheck -------------------------------
(* The segment arithmetic of Ranks agrees with the definitions, on all      *)
(* small vectors.                                                           *)
EXTENDS Ranks

CONSTANTS N, MaxSegs

VARIABLES n, segs

Segments(m) == {s \in (0..(m - 1)) \X (1..m) \X (1..m) : SegLast(s) < m}

RECURSIVE CumOf(_)
CumOf(ss) == IF ss = <<>> THEN <<0>>
             ELSE LET c == CumOf(SubSeq(ss, 1, Len(ss) - 1))
                  IN  Append(c, c[Len(c)] + ss[Len(ss)][2])

Init == n \in 0..N /\ segs = <<>>
Next == /\ Len(segs) < MaxSegs
        /\ \E s \in Segments(n) :
             /\ IF segs = <<>> THEN TRUE ELSE SegLast(segs[Len(segs)]) < s[1]
             /\ segs' = Append(segs, s)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, segs>>

Agree ==
    LET cum  == CumOf(segs)
        ones == SegOnes(segs)
    IN  /\ SegsOK(n, segs)
        /\ CumOK(segs, cum)
        /\ Cardinality(ones) = cum[Len(cum)]
        /\ \A i \in 0..n : SegRank(segs, cum, i) = RankDef(ones, i)
        /\ \A k \in -1..(n + 1) : SegSelect(segs, cum, k) = SelectDef(ones, k)
=============================================================================
