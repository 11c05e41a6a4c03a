------------------------------- MODULE RankGen -------------------------------
(***************************************************************************)
(* Enumerates vectors as sequences of blocks, each of which is empty, full *)
(* or has ones at its borders only, after some leading blocks that are all *)
(* alike and before a shorter block.  Every vector is printed, along with  *)
(* what it is for.                                                         *)
(***************************************************************************)
EXTENDS Ranks, TLC

CONSTANTS Block,    \* bits of a block
          Leads,    \* numbers of leading blocks
          Free,     \* most blocks after these
          Kinds,    \* kinds of the blocks after these
          Tails     \* lengths of the shorter block

VARIABLES lead,     \* <<kind, number of leading blocks>>
          kinds,    \* the kinds of the blocks that follow
          tail      \* <<kind, length>> of the shorter block; <<"none", 0>> if there is none yet

genVars == <<lead, kinds, tail>>

All == {"none", "full", "first", "last", "ends", "low", "high", "gap"}
ASSUME Kinds \subseteq All

\* The segments of a block of this kind and length that starts at p
SegsOf(k, p, len) ==
    IF len = 0 THEN <<>>
    ELSE CASE k = "none"  -> <<>>
           [] k = "full"  -> <<<<p, len, 1>>>>
           [] k = "first" -> <<<<p, 1, 1>>>>
           [] k = "last"  -> <<<<p + len - 1, 1, 1>>>>
           [] k = "ends"  -> IF len < 2 THEN <<<<p, 1, 1>>>> ELSE <<<<p, 2, len - 1>>>>
           [] k = "low"   -> IF len < 2 THEN <<>> ELSE <<<<p, len \div 2, 1>>>>
           [] k = "high"  -> <<<<p + len \div 2, len - len \div 2, 1>>>>
           [] k = "gap"   -> IF len < 2 THEN <<>> ELSE <<<<p, len - 1, 1>>>>

OnesOf(k, len) ==
    IF len = 0 THEN 0
    ELSE CASE k = "none" -> 0
           [] k = "full" -> len
           [] k \in {"first", "last"} -> 1
           [] k = "ends" -> IF len < 2 THEN 1 ELSE 2
           [] k = "low"  -> len \div 2
           [] k = "high" -> len - len \div 2
           [] k = "gap"  -> len - 1

RECURSIVE Blocks(_, _)
Blocks(ks, p) == IF ks = <<>> THEN <<>>
                 ELSE SegsOf(Head(ks), p, Block) \o Blocks(Tail(ks), p + Block)

Length == (lead[2] + Len(kinds)) * Block + tail[2]
Segs   == SegsOf(lead[1], 0, lead[2] * Block) \o Blocks(kinds, lead[2] * Block)
          \o SegsOf(tail[1], (lead[2] + Len(kinds)) * Block, tail[2])

RECURSIVE CumOf(_, _)
CumOf(segs, c) == IF segs = <<>> THEN <<c>> ELSE <<c>> \o CumOf(Tail(segs), c + segs[1][2])
Cum == CumOf(Segs, 0)

GenInit == /\ lead \in {"none", "full"} \X Leads
           /\ kinds = <<>>
           /\ tail = <<"none", 0>>

GenNext == /\ tail = <<"none", 0>>
           /\ UNCHANGED lead
           /\ \/ /\ Len(kinds) < Free
                 /\ \E k \in Kinds : kinds' = Append(kinds, k)
                 /\ UNCHANGED tail
              \/ /\ \E k \in {"none", "full", "last"}, n \in Tails : n > 0 /\ tail' = <<k, n>>
                 /\ UNCHANGED kinds

GenSpec == GenInit /\ [][GenNext]_genVars

\* The segments are what they should be ...
WellFormed == SegsOK(Length, Segs) /\ CumOK(Segs, Cum)
\* ... and the ranks at the borders of blocks are the sums over the blocks before
RECURSIVE SumOnes(_)
SumOnes(ks) == IF ks = <<>> THEN 0 ELSE OnesOf(Head(ks), Block) + SumOnes(Tail(ks))
RanksAtBorders ==
    LET before == OnesOf(lead[1], lead[2] * Block) IN
      /\ \A j \in 0..Len(kinds) :
           SegRank(Segs, Cum, (lead[2] + j) * Block) = before + SumOnes(SubSeq(kinds, 1, j))
      /\ SegRank(Segs, Cum, Length) = before + SumOnes(kinds) + OnesOf(tail[1], tail[2])
\* Selecting and ranking undo each other
Inverse ==
    LET t == Cum[Len(Cum)] IN
      \A k \in {0, t \div 2, t - 1} : k >= 0 /\ k < t =>
         SegRank(Segs, Cum, SegSelect(Segs, Cum, k)) = k

RECURSIVE Text(_)
Text(segs) == IF segs = <<>> THEN ""
              ELSE " " \o ToString(segs[1][1]) \o ":" \o ToString(segs[1][2]) \o ":"
                   \o ToString(segs[1][3]) \o Text(Tail(segs))
Emit == PrintT("V|" \o ToString(Length') \o "|" \o ToString(Cum'[Len(Cum')]) \o "|" \o Text(Segs'))
=============================================================================
