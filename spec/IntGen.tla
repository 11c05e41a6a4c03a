------------------------------- MODULE IntGen -------------------------------
(* Enumerates the state graph of IntStore for one width and short vectors   *)
(* and prints every transition, see BitGen.                                 *)
EXTENDS IntStore, TLC

CONSTANTS W, MaxLen, Ops

VARIABLE call

genVars == <<objs, cur, out, call>>

T(x) == IF x < 0 THEN "H0" ELSE ToString(x)

\* Values by their limbs
Limb(k, room) == IF room >= LimbBits THEN k % 65536
                 ELSE IF room <= 0 THEN 0 ELSE k % Pow2[room + 1]
Trim(v) == [j \in 1..4 |-> Limb(v[j], W - LimbBits * (j - 1))]
AllOnes == Trim(<<65535, 65535, 65535, 65535>>)
Zero    == <<0, 0, 0, 0>>
Mixed   == Trim(<<43690, 52428, 61680, 65280>>)
Good    == {AllOnes, Zero, Mixed}
\* 2^W, the smallest value that does not fit, and a much larger one
TooLarge == IF W = WordBits THEN {}
            ELSE {[j \in 1..4 |-> IF j = (W \div LimbBits) + 1 THEN Pow2[(W % LimbBits) + 1] ELSE 0],
                  <<65535, 65535, 65535, 65535>>}
Values == IF "bad" \in Ops THEN Good \cup TooLarge ELSE Good

HexDigit(k) == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>[k + 1]
Hex4(k) == HexDigit(k \div 4096) \o HexDigit((k \div 256) % 16)
           \o HexDigit((k \div 16) % 16) \o HexDigit(k % 16)
V(v) == Hex4(v[4]) \o Hex4(v[3]) \o Hex4(v[2]) \o Hex4(v[1])

On(op, text) == op \in Ops /\ call' = text

Idx(s) == 0..(Size(s) - 1) \cup (IF "bad" \in Ops THEN {Size(s), Size(s) + 1, -1} ELSE {})

Vectors ==
    \E s \in Slots :
      \/ ~objs[s].live /\ New(s, W) /\ call' = "inew " \o T(s) \o " " \o T(W)
      \/ \E w \in {0, 65, 66, -1} : New(s, w) /\ On("widths", "inew " \o T(s) \o " " \o T(w))
      \/ /\ objs[s].live
         /\ \/ \E v \in Values :
                 /\ Size(s) < MaxLen \/ ~Fits(v, W)
                 /\ PushVal(s, v)
                 /\ On("push", "push " \o T(s) \o " " \o V(v))
            \/ \E i \in Idx(s), v \in Values :
                 SetVal(s, i, v) /\ On("iset", "iset " \o T(s) \o " " \o T(i) \o " " \o V(v))
            \/ \E i \in Idx(s) : GetVal(s, i) /\ On("iget", "iget " \o T(s) \o " " \o T(i))
            \/ Snap(s) /\ On("isnap", "isnap " \o T(s))
            \/ Raw(s) /\ On("iraw", "iraw " \o T(s))
            \/ IsEmpty(s) /\ On("iempty", "iempty " \o T(s))
            \/ LenOf(s) /\ On("ilenv", "ilenv " \o T(s))
            \/ \E rt \in {"iter", "ref", "own"} :
                 IterOpen(s, rt = "own") /\ On("iiter", "iiter " \o T(s) \o " " \o rt)

Iterating ==
  Usable /\
   (\/ Next_ /\ call' = "next"
    \/ \E k \in {0, 1, Left, -1} : Nth(k) /\ call' = "nth " \o T(k)
    \/ IterLen /\ call' = "ilen"
    \/ IterHint /\ call' = "ihint"
    \/ \E k \in {0, 1, Left, Left + 1, -1} : SkipLen(k) /\ call' = "adlen " \o T(k)
    \/ DrainNext /\ call' = "drain next"
    \/ DrainAll /\ call' = "drain collect"
    \/ Count /\ call' = "count"
    \/ Last /\ call' = "last")

GenInit == IntInit /\ call = "init"
GenNext == Vectors \/ Iterating \/ (IterClose /\ call' = "close")
GenSpec == GenInit /\ [][GenNext]_genVars
GenView == <<objs, cur>>
St(o, c) == ToString(<<[s \in Slots |-> <<o[s].live, o[s].w, o[s].vals>>],
                       <<c.open, c.gone, c.pos, c.vals>>>>)
Emit == PrintT("E|" \o St(objs, cur) \o "|" \o call' \o "|" \o St(objs', cur')
               \o "|" \o out'[1])
=============================================================================
