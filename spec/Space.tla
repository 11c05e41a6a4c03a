-------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* How much memory the structures may hold.  The machine leaves open how   *)
(* they obtain it; it constrains the number of blocks and bytes held after *)
(* each call, and the number of times memory is obtained.                  *)
(*                                                                         *)
(* A measurement m is <<change of bytes, change of blocks, allocations>>.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES held,     \* stack of <<bytes, blocks>> held by the live objects
          iv,       \* the integer vector: width, requested capacity, size, times it has grown
          fits      \* is the last measurement within the limits?

spaceVars == <<held, iv, fits>>

NoIv == [w |-> 0, c |-> 0, size |-> 0, grown |-> 0]

CeilDiv(x, y) == (x + y - 1) \div y
Max(x, y)     == IF x > y THEN x ELSE y

WordBytes == 8
\* Words needed for k elements of w bits
Need(k, w) == CeilDiv(k * w, 64)

-----------------------------------------------------------------------------
(* The limits *)

\* A bit vector: one block of exactly as many words as it needs
BitVecFits(n, bytes, blocks) ==
    /\ bytes = WordBytes * Need(n, 1)
    /\ blocks = IF n = 0 THEN 0 ELSE 1

\* An integer vector of `size` elements for which room for c was requested (c = -1: nothing was)
Slack == 64
IntVecFits(w, c, size, grown, bytes, blocks, words) ==
    /\ words <= Need(size, w) + 1
    /\ WordBytes * words <= bytes
    /\ blocks = 1
    /\ bytes <= 2 * WordBytes * Max(Need(size, w), Need(Max(c, 0), w)) + Slack
    /\ (c >= 0 /\ size <= c) => grown <= 1

\* The index of a vector of n bits: less than 4 percent of its words, and a constant
IndexConst == 256
IndexFits(n, bytes) == 100 * (bytes - IndexConst) < 4 * WordBytes * Need(n, 1)

-----------------------------------------------------------------------------
SpaceInit == held = <<>> /\ iv = NoIv /\ fits = TRUE

Take(m)  == held' = Append(held, <<m[1], m[2]>>)
TopOf    == held[Len(held)]

BvNew(n, m) ==
    /\ Take(m)
    /\ fits' = BitVecFits(n, m[1], m[2])
    /\ UNCHANGED iv
\* Using a vector leaves nothing behind
BvUse(m) ==
    /\ fits' = (m[1] = 0 /\ m[2] = 0)
    /\ UNCHANGED <<held, iv>>
\* Everything is returned
Free(m) ==
    /\ Len(held) > 0
    /\ fits' = (m[1] = -TopOf[1] /\ m[2] = -TopOf[2])
    /\ held' = SubSeq(held, 1, Len(held) - 1)
    /\ iv' = NoIv
IvNew(w, c, m, words) ==
    /\ Take(m)
    /\ iv' = [w |-> w, c |-> c, size |-> 0, grown |-> 0]
    /\ fits' = IntVecFits(w, c, 0, 0, m[1], m[2], words)
IvPush(k, m, words) ==
    /\ Len(held) > 0
    /\ held' = [held EXCEPT ![Len(held)] = <<@[1] + m[1], @[2] + m[2]>>]
    /\ iv' = [iv EXCEPT !.size = @ + k, !.grown = @ + m[3]]
    /\ fits' = IntVecFits(iv.w, iv.c, iv.size + k, iv.grown + m[3],
                          TopOf[1] + m[1], TopOf[2] + m[2], words)
Index(n, m) ==
    /\ Take(m)
    /\ fits' = IndexFits(n, m[1])
    /\ UNCHANGED iv
=============================================================================
