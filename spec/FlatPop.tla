------------------------------- MODULE FlatPop -------------------------------
(***************************************************************************)
(* The rank/select index as an algorithm, with block sizes as parameters:  *)
(* an entry per large block holds the ones before it and the ones of its   *)
(* small blocks but the last, summed up; some ones are sampled.  Vectors   *)
(* grow bit by bit, so that every vector up to length N occurs.            *)
(***************************************************************************)
EXTENDS Ranks

CONSTANTS N,        \* longest vector
          W,        \* bits of a word
          PerL2,    \* words of a small block
          PerL1,    \* small blocks of a large block
          Rate,     \* every Rate-th one is sampled
          HintDiv   \* a sample is its position divided by this

VARIABLE bits       \* sequence of 0 and 1

L2Size == W * PerL2
L1Size == L2Size * PerL1
Full   == N + 1     \* fills the small blocks that do not exist

Ones(s) == {p \in 0..(Len(s) - 1) : s[p + 1] = 1}
Min(a, b) == IF a < b THEN a ELSE b
NumWords == (Len(bits) + W - 1) \div W
NumL2    == (NumWords + PerL2 - 1) \div PerL2
Count(a, b) == Cardinality({p \in Ones(bits) : a <= p /\ p < b})

\* Large blocks: the last one may be without any bits
NumL1 == (NumL2 \div PerL1) + 1
L1Of(j) == Count(0, j * L1Size)
L2Of(j, k) == IF j * PerL1 + k > NumL2 THEN Full ELSE Count(j * L1Size, j * L1Size + k * L2Size)

WordOnes(k) == Count(k * W, (k + 1) * W)

\* rank: the entry, then words, then single bits
RECURSIVE SumWords(_, _)
SumWords(from, n) == IF n = 0 THEN 0 ELSE WordOnes(from) + SumWords(from + 1, n - 1)
IndexRank(i) ==
    IF i = 0 THEN 0
    ELSE LET j     == i \div L1Size
             k     == (i \div L2Size) % PerL1
             inner == i % L2Size
             words == inner \div W
             rest  == inner % W
             start == j * PerL1 * PerL2 + k * PerL2
         IN  L1Of(j) + (IF k = 0 THEN 0 ELSE L2Of(j, k)) + SumWords(start, words)
               + (IF rest > 0 THEN Count((start + words) * W, (start + words) * W + rest) ELSE 0)

\* select: from the sample to the large block, the small block, the word, the bit
Sample(m) == SelectDef(Ones(bits), m * Rate) \div HintDiv
RECURSIVE Walk(_, _)
Walk(j, k) == IF j + 1 < NumL1 /\ L1Of(j + 1) <= k THEN Walk(j + 1, k) ELSE j
RECURSIVE WalkWords(_, _)
WalkWords(w, k) == IF WordOnes(w) <= k THEN WalkWords(w + 1, k - WordOnes(w)) ELSE <<w, k>>
IndexSelect(k) ==
    IF k >= Cardinality(Ones(bits)) THEN -1
    ELSE LET j  == Walk(Sample(k \div Rate), k)
             r  == k - L1Of(j)
             b  == Cardinality({x \in 1..(PerL1 - 1) : L2Of(j, x) <= r})
             r2 == r - (IF b = 0 THEN 0 ELSE L2Of(j, b))
             wr == WalkWords(j * PerL1 * PerL2 + b * PerL2, r2)
         IN  CHOOSE p \in Ones(bits) : p \div W = wr[1] /\ Count(wr[1] * W, p) = wr[2]

Init == bits = <<>>
Next == Len(bits) < N /\ \E b \in {0, 1} : bits' = Append(bits, b)
Spec == Init /\ [][Next]_bits

RankRight   == \A i \in 0..Len(bits) : IndexRank(i) = RankDef(Ones(bits), i)
SelectRight == \A k \in 0..(Len(bits) + 1) : IndexSelect(k) = SelectDef(Ones(bits), k)
\* Nothing is looked up behind the last entry
InsideIndex == \A i \in 0..Len(bits) : i \div L1Size < NumL1
\* A sample never lies behind the block it leads to
HintsEarly == \A k \in 0..(Cardinality(Ones(bits)) - 1) :
                 Sample(k \div Rate) <= SelectDef(Ones(bits), k) \div L1Size
=============================================================================
