------------------------------- MODULE BitGen -------------------------------
(***************************************************************************)
(* Enumerates the state graph of BitStore for a bounded set of calls and   *)
(* prints every transition, so that every one of them can be replayed into *)
(* the real code.  Positions are taken from a few points of interest, such *)
(* as those around word boundaries, of objects of realistic length.        *)
(***************************************************************************)
EXTENDS BitStore, TLC

CONSTANTS Kind, N,      \* kind and length of the object
          Start,        \* its ones initially
          Pts,          \* positions that are read and written
          Bnds,         \* positions where windows begin and end
          Depth,        \* how many windows may be nested
          Bounds,       \* pairs of bound kinds to slice with, each as 3 * left + right
          Ops           \* calls to be included

VARIABLE call           \* the last call, as text

genVars == <<objs, scope, out, call>>

Far == {-1}
T(x) == IF x < 0 THEN "H0" ELSE ToString(x)
M(b) == IF b THEN "1" ELSE "0"
BK(k) == CASE k = Incl -> "i" [] k = Excl -> "x" [] OTHER -> "u"

Rel(w)  == {p - w.a : p \in {q \in Pts : w.a <= q /\ q <= w.b}} \cup {WinLen(w)} \cup Far
RelB(w) == {p - w.a : p \in {q \in Bnds : w.a <= q /\ q <= w.b}} \cup {WinLen(w) + 1} \cup Far

Live == {s \in Slots : objs[s].live}
On(op, text) == op \in Ops /\ call' = text

Root ==
    \/ Live = {} /\ New(0, Kind, N, Start) /\ call' = "new"
    \/ \E s \in Live : Open(s) /\ On("open", "open " \o T(s))
    \/ \E s \in Live, d \in Slots : s # d /\ Clone(s, d) /\ On("clone", "clone " \o T(s) \o " " \o T(d))
    \/ \E s \in Live : Cardinality(Live) > 1 /\ Drop(s) /\ On("drop", "drop " \o T(s))
    \/ \E s \in Live : Snap(s) /\ On("snap", "snap " \o T(s))
    \/ \E s \in Live : Raw(s) /\ On("raw", "raw " \o T(s))
    \/ \E s \in Live : Debug(s) /\ On("debug", "debug " \o T(s))
    \/ \E s, t \in Live, a, b, c, d \in Bnds :
          /\ "eq" \in Ops
          /\ a <= b /\ c <= d /\ b <= N /\ d <= N
          /\ Eq(s, a, b, t, c, d)
          /\ On("eq", "eq " \o T(s) \o " " \o T(a) \o " " \o T(b) \o " "
                      \o T(t) \o " " \o T(c) \o " " \o T(d))

Room == Len(scope) < Depth

InWindow ==
    \E sd \in Sides :
      LET w == WinOf(sd)
          S == T(sd) \o " "
      IN
        \/ LenOf(sd) /\ On("len", "len " \o S)
        \/ IsEmpty(sd) /\ On("empty", "empty " \o S)
        \/ WinSnap(sd) /\ On("wsnap", "wsnap " \o S)
        \/ \E i \in Rel(w) : Get(sd, i) /\ On("get", "get " \o S \o T(i))
        \/ \E i \in Rel(w), v \in BOOLEAN :
              Set(sd, i, v) /\ On("set", "set " \o S \o T(i) \o " " \o M(v))
        \/ \E i \in Rel(w) : Flip(sd, i) /\ On("flip", "flip " \o S \o T(i))
        \/ /\ Room
           /\ "slice" \in Ops
           /\ \E m \in BOOLEAN, k \in Bounds :
              LET sk == k \div 3
                  ek == k % 3
              IN
              \E s \in IF sk = Unbd THEN {0} ELSE RelB(w),
                 e \in IF ek = Unbd THEN {0} ELSE RelB(w) :
                /\ Slice(sd, m, sk, s, ek, e)
                /\ On("slice", "slice " \o S \o M(m) \o " " \o BK(sk) \o " " \o T(s)
                               \o " " \o BK(ek) \o " " \o T(e))
        \/ /\ Room
           /\ "split" \in Ops
           /\ \E m \in BOOLEAN, k \in RelB(w) :
                /\ Split(sd, m, k)
                /\ On("split", "split " \o S \o M(m) \o " " \o T(k))
        \/ /\ Room
           /\ "view" \in Ops
           /\ \E m \in BOOLEAN, a, b \in RelB(w) \ Far :
                /\ View(sd, m, a, b)
                /\ On("view", "view " \o S \o M(m) \o " " \o T(a) \o " " \o T(b))
        \/ "iter" \in Ops /\ Iter(sd) /\ On("iter", "iter " \o S)

InIterator ==
  Usable /\
   (\/ Next_ /\ On("next", "next")
    \/ \E k \in {0, 1, Left - 1, Left, -1} :
          (k >= 0 \/ k = -1) /\ Nth(k) /\ On("nth", "nth " \o T(k))
    \/ IterLen /\ On("ilen", "ilen")
    \/ IterHint /\ On("ihint", "ihint")
    \/ \E k \in {0, 1, Left, Left + 1, -1} : SkipLen(k) /\ On("adlen", "adlen " \o T(k))
    \/ DrainNext /\ On("drain", "drain next")
    \/ DrainAll /\ On("drain", "drain collect")
    \/ Count /\ On("count", "count")
    \/ Last /\ On("last", "last"))

GenInit == StoreInit /\ call = "init"
GenNext == Root \/ InWindow \/ InIterator \/ (Close /\ call' = "close")
GenSpec == GenInit /\ [][GenNext]_genVars

\* States are identified by what is stored, not by how they were reached
GenView == <<objs, scope>>

\* Printed for every transition
St(o, sc) == ToString(<<[s \in Slots |-> <<o[s].live, o[s].ones>>],
                        [d \in 1..Len(sc) |-> <<sc[d].slot, sc[d].mut,
                            [k \in 1..Len(sc[d].wins) |-> <<sc[d].wins[k].a, sc[d].wins[k].b, sc[d].wins[k].lim>>],
                            sc[d].pos, sc[d].end, sc[d].gone>>]>>)
Emit == PrintT("E|" \o St(objs, scope) \o "|" \o call' \o "|" \o St(objs', scope')
               \o "|" \o out'[1])
=============================================================================
