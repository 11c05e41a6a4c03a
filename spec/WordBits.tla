------------------------------ MODULE WordBits -------------------------------
(***************************************************************************)
(* A bit vector kept in words of W bits, with the arithmetic used for      *)
(* reading, setting and flipping; refines a set of positions.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

CONSTANTS N, W

VARIABLES words, ones

NumWords == (N + W - 1) \div W
AllOnes  == 2 ^ W - 1

At(i)  == (i \div W) + 1
Bit(i) == 2 ^ (i % W)

Read(i) == (words[At(i)] & Bit(i)) # 0

Init == words = [k \in 1..NumWords |-> 0] /\ ones = {}
Set(i)   == /\ words' = [words EXCEPT ![At(i)] = @ | Bit(i)]
            /\ ones' = ones \cup {i}
Clear(i) == /\ words' = [words EXCEPT ![At(i)] = @ & (AllOnes - Bit(i))]
            /\ ones' = ones \ {i}
Flip(i)  == /\ words' = [words EXCEPT ![At(i)] = @ ^^ Bit(i)]
            /\ ones' = IF i \in ones THEN ones \ {i} ELSE ones \cup {i}
Next == \E i \in 0..(N - 1) : Set(i) \/ Clear(i) \/ Flip(i)
Spec == Init /\ [][Next]_<<words, ones>>

Same    == \A i \in 0..(N - 1) : Read(i) <=> i \in ones
Padding == \A i \in N..(NumWords * W - 1) : ~Read(i)
InWord  == \A k \in 1..NumWords : words[k] \in 0..AllOnes
=============================================================================
