------------------------------ MODULE IntStore ------------------------------
(***************************************************************************)
(* The abstract machine of integer vectors: each one is a sequence of      *)
(* values that fit its width.  One action per public call; `out` is the    *)
(* result the caller must observe.                                         *)
(*                                                                         *)
(* A 64 bit value is represented by its four 16 bit limbs, least           *)
(* significant first, since TLC's integers have 32 bits only.  Negative    *)
(* indices stand for indices beyond every length.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slots

VARIABLES objs,     \* slot -> integer vector
          cur,      \* the open iterator
          out

intVars == <<objs, cur, out>>

NoVec  == [live |-> FALSE, w |-> 1, vals |-> <<>>]
NoIter == [open |-> FALSE, gone |-> FALSE, pos |-> 1, vals |-> <<>>]

Ok       == <<"ok", 0>>
Panic    == <<"panic", 0>>
BoolR(b) == <<"bool", IF b THEN 1 ELSE 0>>
IntR(k)  == <<"int", k>>
ListR(s) == <<"list", s>>
ValR(v)  == <<"val", v>>
ValsR(s) == <<"vals", s>>
NoneR    == <<"none", 0>>

WordBits == 64
LimbBits == 16

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>

WidthOK(w) == 1 <= w /\ w <= WordBits

\* v < 2^w
Fits(v, w) ==
    \A j \in 1..4 :
        LET room == w - LimbBits * (j - 1)
        IN  CASE room >= LimbBits -> TRUE
              [] room <= 0        -> v[j] = 0
              [] OTHER            -> v[j] < Pow2[room + 1]

IntInit ==
    /\ objs = [s \in Slots |-> NoVec]
    /\ cur = NoIter
    /\ out = Ok

Idle == ~cur.open

New(s, w) ==
    /\ Idle
    /\ IF WidthOK(w)
       THEN /\ objs' = [objs EXCEPT ![s] = [live |-> TRUE, w |-> w, vals |-> <<>>]]
            /\ out' = Ok
       ELSE /\ objs' = [objs EXCEPT ![s] = NoVec]
            /\ out' = Panic
    /\ UNCHANGED cur

\* The requested capacity has no observable effect
WithCapacity(s, w, c) == c >= 0 /\ New(s, w)

Vals(s)   == objs[s].vals
Size(s)   == Len(objs[s].vals)
Hit(s, i) == 0 <= i /\ i < Size(s)

Observe(s, r) == Idle /\ objs[s].live /\ out' = r /\ UNCHANGED <<objs, cur>>

\* Either succeeds with the new contents vs, or is rejected
Change(s, cond, vs) ==
    /\ Idle
    /\ objs[s].live
    /\ IF cond
       THEN objs' = [objs EXCEPT ![s].vals = vs] /\ out' = Ok
       ELSE UNCHANGED objs /\ out' = Panic
    /\ UNCHANGED cur

PushVal(s, v)  == Change(s, Fits(v, objs[s].w), Append(Vals(s), v))
\* Many values, pushed one after the other
PushAll(s, vs) == Change(s, \A k \in 1..Len(vs) : Fits(vs[k], objs[s].w), Vals(s) \o vs)
SetVal(s, i, v) == Change(s, Hit(s, i) /\ Fits(v, objs[s].w),
                          IF Hit(s, i) THEN [Vals(s) EXCEPT ![i + 1] = v] ELSE <<>>)
GetVal(s, i)   == Observe(s, IF Hit(s, i) THEN ValR(Vals(s)[i + 1]) ELSE Panic)
Snap(s)        == Observe(s, ValsR(Vals(s)))
IsEmpty(s)     == Observe(s, BoolR(Size(s) = 0))
LenOf(s)       == Observe(s, IntR(Size(s)))

-----------------------------------------------------------------------------
(* The packed representation: element i occupies the bits i*w .. (i+1)*w-1, *)
(* all other bits are zero.                                                 *)

BitOf(v, k) == (v[(k \div LimbBits) + 1] \div Pow2[(k % LimbBits) + 1]) % 2

PackedBit(vals, w, p) ==
    IF p >= w * Len(vals) THEN 0 ELSE BitOf(vals[p \div w + 1], p % w)

PackedLimb(vals, w, j) ==
    LET b(k) == PackedBit(vals, w, LimbBits * j + k)
    IN  b(0) + 2 * b(1) + 4 * b(2) + 8 * b(3) + 16 * b(4) + 32 * b(5) + 64 * b(6)
        + 128 * b(7) + 256 * b(8) + 512 * b(9) + 1024 * b(10) + 2048 * b(11)
        + 4096 * b(12) + 8192 * b(13) + 16384 * b(14) + 32768 * b(15)

NumWords(size, w) == (size * w) \div WordBits + 1

Packed(vals, w) ==
    [k \in 1..NumWords(Len(vals), w) |->
        [j \in 1..4 |-> PackedLimb(vals, w, 4 * (k - 1) + j - 1)]]

Raw(s) == Observe(s, ValsR(Packed(Vals(s), objs[s].w)))

-----------------------------------------------------------------------------
(* Iterators *)

IterOpen(s, owning) ==
    /\ Idle
    /\ objs[s].live
    /\ cur' = [open |-> TRUE, gone |-> FALSE, pos |-> 1, vals |-> Vals(s)]
    /\ objs' = IF owning THEN [objs EXCEPT ![s] = NoVec] ELSE objs
    /\ out' = Ok

IterClose ==
    /\ cur.open
    /\ cur' = NoIter
    /\ out' = Ok
    /\ UNCHANGED objs

Usable == cur.open /\ ~cur.gone
Left   == Len(cur.vals) - cur.pos + 1
Rest   == SubSeq(cur.vals, cur.pos, Len(cur.vals))
Cursor(p) == cur' = [cur EXCEPT !.pos = p] /\ UNCHANGED objs
Stay      == UNCHANGED <<objs, cur>>

Next_ ==
    /\ Usable
    /\ IF Left = 0 THEN out' = NoneR /\ Stay
       ELSE out' = ValR(cur.vals[cur.pos]) /\ Cursor(cur.pos + 1)
Nth(k) ==
    /\ Usable
    /\ IF 0 <= k /\ k < Left
       THEN out' = ValR(cur.vals[cur.pos + k]) /\ Cursor(cur.pos + k + 1)
       ELSE out' = NoneR /\ Cursor(Len(cur.vals) + 1)
IterLen    == Usable /\ out' = IntR(Left) /\ Stay
IterHint   == Usable /\ out' = ListR(<<Left, Left>>) /\ Stay
SkipLen(k) == Usable /\ out' = IntR(IF k < 0 \/ k > Left THEN 0 ELSE Left - k) /\ Stay
DrainNext  == Usable /\ out' = ValsR(Rest) /\ Cursor(Len(cur.vals) + 1)
Consuming(r) ==
    /\ Usable
    /\ out' = r
    /\ cur' = [cur EXCEPT !.gone = TRUE]
    /\ UNCHANGED objs
DrainAll == Consuming(ValsR(Rest))
Count    == Consuming(IntR(Left))
Last     == Consuming(IF Left = 0 THEN NoneR ELSE ValR(cur.vals[Len(cur.vals)]))

-----------------------------------------------------------------------------
IntTypeOK ==
    \A s \in Slots :
        /\ WidthOK(objs[s].w)
        /\ \A k \in 1..Len(objs[s].vals) : Fits(objs[s].vals[k], objs[s].w)

\* A rejected push or set has no effect
RejectedHasNoEffect ==
    [][out' = Panic => \A s \in Slots : objs'[s] = objs[s] \/ ~objs'[s].live]_intVars

\* A call changes at most one element of one vector, or appends
OneElementPerCall ==
    [][\A s \in Slots :
         (objs[s].live /\ objs'[s].live /\ objs[s].w = objs'[s].w
            /\ Len(objs'[s].vals) > 0 /\ objs[s] # objs'[s])
           => LET x == objs[s].vals  y == objs'[s].vals IN
                \/ Len(y) > Len(x) /\ SubSeq(y, 1, Len(x)) = x
                \/ Len(y) = Len(x) /\ Cardinality({j \in 1..Len(x) : x[j] # y[j]}) = 1]_intVars
=============================================================================
