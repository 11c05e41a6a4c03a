------------------------------- MODULE IntPack -------------------------------
(***************************************************************************)
(* Packed integers in words of B bits, with the steps that pushing,        *)
(* setting and reading take at word boundaries; refines a sequence.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

CONSTANTS B, MaxLen

VARIABLES w, data, vals

Word      == 2 ^ B
Mask      == 2 ^ w - 1
Flipped(x)    == Word - 1 - x
Shl(x, k) == (x * 2 ^ k) % Word
Shr(x, k) == x \div 2 ^ k

Init == w \in 1..B /\ data = <<0>> /\ vals = <<>>

Push(v) ==
    LET off == (Len(vals) * w) % B
        n   == Len(data)
        fit == B - off
    IN  /\ vals' = Append(vals, v)
        /\ data' = IF off = 0
                   THEN LET d == [data EXCEPT ![n] = @ | v] IN IF w = B THEN Append(d, 0) ELSE d
                   ELSE IF off + w >= B
                   THEN Append([data EXCEPT ![n] = @ | Shl(v & (2 ^ fit - 1), off)], Shr(v, fit))
                   ELSE [data EXCEPT ![n] = @ | Shl(v, off)]
        /\ UNCHANGED w

Get(i) ==
    LET k   == (i * w) \div B + 1
        off == (i * w) % B
        fit == B - off
    IN  IF off + w > B THEN Shl(data[k + 1] & (2 ^ (w - fit) - 1), fit) | Shr(data[k], off)
        ELSE Shr(data[k], off) & Mask

Set(i, v) ==
    LET k   == (i * w) \div B + 1
        off == (i * w) % B
        fit == B - off
    IN  /\ vals' = [vals EXCEPT ![i + 1] = v]
        /\ data' = IF off + w > B
                   THEN [data EXCEPT ![k] = (@ & Flipped(Shl(Mask, off))) | Shl(v, off),
                                     ![k + 1] = (@ & Flipped(Shr(Mask, fit))) | Shr(v, fit)]
                   ELSE [data EXCEPT ![k] = (@ & Flipped(Shl(Mask, off))) | Shl(v, off)]
        /\ UNCHANGED w

Next == \/ Len(vals) < MaxLen /\ \E v \in 0..Mask : Push(v)
        \/ \E i \in 0..(Len(vals) - 1), v \in 0..Mask : Set(i, v)
Spec == Init /\ [][Next]_<<w, data, vals>>

Sequence == \A i \in 0..(Len(vals) - 1) : Get(i) = vals[i + 1]
WordCount == Len(data) = (Len(vals) * w) \div B + 1
\* Bit p of the packed string
PackedBit(p) == Shr(data[p \div B + 1], p % B) % 2
Packed == \A p \in 0..(Len(data) * B - 1) :
             PackedBit(p) = IF p < Len(vals) * w THEN Shr(vals[p \div w + 1], p % w) % 2 ELSE 0
=============================================================================
