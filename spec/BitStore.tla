------------------------------ MODULE BitStore ------------------------------
(***************************************************************************)
(* The abstract machine of everything in the library that stores bits:    *)
(* bit vectors, word slices and primitive integers, the views (slices,    *)
(* split halves, explicitly constructed views) that can be opened on them *)
(* and the iterators over them.                                           *)
(*                                                                         *)
(* One action per public call.  An action sets `out` to the result the    *)
(* caller must observe, including <<"panic", 0>> for calls that must be   *)
(* rejected.  An object is its length and the set of its one-bits; how    *)
(* these are stored in words is a matter of module WordBits, which        *)
(* refines this one.                                                      *)
(*                                                                         *)
(* Indices that exceed every length (such as usize::MAX) are represented  *)
(* by negative numbers.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slots          \* names of the variables that hold objects

VARIABLES objs,         \* slot -> object
          scope,        \* stack of borrowed windows and iterators, innermost last
          out           \* result of the last call: <<tag, payload>>

storeVars == <<objs, scope, out>>

NoObj == [live |-> FALSE, kind |-> 0, n |-> 0, ones |-> {}]

Ok       == <<"ok", 0>>
Panic    == <<"panic", 0>>
BoolR(b) == <<"bool", IF b THEN 1 ELSE 0>>
IntR(k)  == <<"int", k>>
ListR(s) == <<"list", s>>
BitsR(n, ones) == <<"bits", <<n, ones>>>>
WordsR(k, ones) == <<"words", <<k, ones>>>>

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y

(***************************************************************************)
(* Windows.  A window covers the positions a .. b-1 of its object, of      *)
(* which only those below lim exist (lim < b only for views that were     *)
(* explicitly constructed too long).                                      *)
(***************************************************************************)
Win(a, b, lim) == [a |-> a, b |-> b, lim |-> lim]
WinLen(w)      == w.b - w.a
Hit(w, i)      == /\ 0 <= i
                  /\ i < WinLen(w)
                  /\ w.a + i < w.lim

WinScope(s, m, ws) == [kind |-> "win", slot |-> s, mut |-> m, wins |-> ws,
                       pos |-> 0, end |-> 0, lim |-> 0, gone |-> FALSE]
IterScope(s, w)    == [kind |-> "iter", slot |-> s, mut |-> FALSE, wins |-> <<>>,
                       pos |-> w.a, end |-> w.b, lim |-> w.lim, gone |-> FALSE]

Top      == scope[Len(scope)]
InWin    == scope # <<>> /\ Top.kind = "win"
InIter   == scope # <<>> /\ Top.kind = "iter"
AtRoot   == scope = <<>>
Sides    == IF InWin THEN 0..(Len(Top.wins) - 1) ELSE {}
WinOf(sd) == Top.wins[sd + 1]
Ones     == objs[Top.slot].ones
IsOne(p) == p \in Ones
Push(sc) == scope' = Append(scope, sc)
Pop      == scope' = SubSeq(scope, 1, Len(scope) - 1)

StoreInit ==
    /\ objs = [s \in Slots |-> NoObj]
    /\ scope = <<>>
    /\ out = Ok

-----------------------------------------------------------------------------
(* Objects *)

New(s, kind, n, ones) ==
    /\ AtRoot
    /\ ones \subseteq 0..(n - 1)
    /\ objs' = [objs EXCEPT ![s] = [live |-> TRUE, kind |-> kind, n |-> n, ones |-> ones]]
    /\ out' = Ok
    /\ UNCHANGED scope

Clone(s, d) ==
    /\ AtRoot
    /\ objs[s].live
    /\ objs' = [objs EXCEPT ![d] = objs[s]]
    /\ out' = Ok
    /\ UNCHANGED scope

Drop(s) ==
    /\ AtRoot
    /\ objs' = [objs EXCEPT ![s] = NoObj]
    /\ out' = Ok
    /\ UNCHANGED scope

Observe(r) == out' = r /\ UNCHANGED <<objs, scope>>

\* All bits, read one by one
Snap(s) ==
    /\ AtRoot
    /\ objs[s].live
    /\ Observe(BitsR(objs[s].n, objs[s].ones))

\* The memory words.  Bit p of the object is bit p % 64 of word p \div 64, and
\* all other bits of these words are zero.
NumWords(o) == CASE o.kind = 0 -> (o.n + 63) \div 64
                 [] o.kind = 1 -> o.n \div 64
                 [] OTHER      -> 1
Raw(s) ==
    /\ AtRoot
    /\ objs[s].live
    /\ Observe(WordsR(NumWords(objs[s]), objs[s].ones))

\* The debug rendering "{b, b, ..., b}" as character codes
DebugText(o) ==
    LET Code(p) == IF p \in o.ones THEN 49 ELSE 48
        Char(j) == CASE j % 3 = 1 -> Code((j - 1) \div 3)
                     [] j % 3 = 2 -> 44
                     [] OTHER     -> 32
    IN  IF o.n = 0 THEN <<123, 125>>
        ELSE <<123>> \o [j \in 1..(3 * o.n - 2) |-> Char(j)] \o <<125>>
Debug(s) ==
    /\ AtRoot
    /\ objs[s].live
    /\ Observe(ListR(DebugText(objs[s])))

\* Equality of two windows, asked both ways and negated both ways
EqWin(s1, a1, b1, s2, a2, b2) ==
    /\ b1 - a1 = b2 - a2
    /\ LET d == a2 - a1
           X == {p \in objs[s1].ones : a1 <= p /\ p < b1}
           Y == {p \in objs[s2].ones : a2 <= p /\ p < b2}
       IN  {p + d : p \in X} = Y
Eq(s1, a1, b1, s2, a2, b2) ==
    /\ AtRoot
    /\ objs[s1].live /\ objs[s2].live
    /\ 0 <= a1 /\ a1 <= b1 /\ b1 <= objs[s1].n
    /\ 0 <= a2 /\ a2 <= b2 /\ b2 <= objs[s2].n
    /\ LET e == IF EqWin(s1, a1, b1, s2, a2, b2) THEN 1 ELSE 0
       IN  Observe(ListR(<<e, e, 1 - e, 1 - e>>))

-----------------------------------------------------------------------------
(* Opening and closing scopes *)

Open(s) ==
    /\ AtRoot
    /\ objs[s].live
    /\ Push(WinScope(s, TRUE, <<Win(0, objs[s].n, objs[s].n)>>))
    /\ out' = Ok
    /\ UNCHANGED objs

Close ==
    /\ scope # <<>>
    /\ Pop
    /\ out' = Ok
    /\ UNCHANGED objs

\* Bound kinds
Incl == 0
Excl == 1
Unbd == 2

RangeStart(k, s)   == CASE k = Incl -> s [] k = Excl -> s + 1 [] OTHER -> 0
RangeEnd(k, e, ln) == CASE k = Incl -> e + 1 [] k = Excl -> e [] OTHER -> ln
RangeValid(sk, s, ek, e, ln) ==
    /\ (sk # Unbd => s >= 0)
    /\ (ek # Unbd => e >= 0)
    /\ RangeStart(sk, s) <= RangeEnd(ek, e, ln)
    /\ RangeEnd(ek, e, ln) <= ln

Slice(sd, m, sk, s, ek, e) ==
    /\ sd \in Sides
    /\ m => Top.mut
    /\ LET w  == WinOf(sd)
           ln == WinLen(w)
       IN  IF RangeValid(sk, s, ek, e, ln)
           THEN /\ Push(WinScope(Top.slot, m,
                       <<Win(w.a + RangeStart(sk, s), w.a + RangeEnd(ek, e, ln), w.lim)>>))
                /\ out' = Ok
           ELSE /\ out' = Panic
                /\ UNCHANGED scope
    /\ UNCHANGED objs

\* The split index must be an index of the window
Split(sd, m, k) ==
    /\ sd \in Sides
    /\ m => Top.mut
    /\ LET w == WinOf(sd)
       IN  IF 0 <= k /\ k < WinLen(w)
           THEN /\ Push(WinScope(Top.slot, m,
                       <<Win(w.a, w.a + k, w.lim), Win(w.a + k, w.b, w.lim)>>))
                /\ out' = Ok
           ELSE /\ out' = Panic
                /\ UNCHANGED scope
    /\ UNCHANGED objs

\* A view constructed explicitly.  It may reach past the window it is opened on.
View(sd, m, a, b) ==
    /\ sd \in Sides
    /\ m => Top.mut
    /\ LET w == WinOf(sd)
       IN  IF a <= b
           THEN /\ Push(WinScope(Top.slot, m,
                       <<Win(w.a + a, w.a + b, Min2(w.lim, w.b))>>))
                /\ out' = Ok
           ELSE /\ out' = Panic
                /\ UNCHANGED scope
    /\ UNCHANGED objs

-----------------------------------------------------------------------------
(* Access through a window *)

LenOf(sd)   == sd \in Sides /\ Observe(IntR(WinLen(WinOf(sd))))
IsEmpty(sd) == sd \in Sides /\ Observe(BoolR(WinLen(WinOf(sd)) = 0))

Get(sd, i) ==
    /\ sd \in Sides
    /\ LET w == WinOf(sd)
       IN  Observe(IF Hit(w, i) THEN BoolR(IsOne(w.a + i)) ELSE Panic)

Write(p, v) == objs' = [objs EXCEPT ![Top.slot].ones = IF v THEN @ \cup {p} ELSE @ \ {p}]

Set(sd, i, v) ==
    /\ sd \in Sides
    /\ Top.mut
    /\ LET w == WinOf(sd)
       IN  IF Hit(w, i)
           THEN Write(w.a + i, v) /\ out' = Ok
           ELSE out' = Panic /\ UNCHANGED objs
    /\ UNCHANGED scope

Flip(sd, i) ==
    /\ sd \in Sides
    /\ Top.mut
    /\ LET w == WinOf(sd)
       IN  IF Hit(w, i)
           THEN Write(w.a + i, ~IsOne(w.a + i)) /\ out' = Ok
           ELSE out' = Panic /\ UNCHANGED objs
    /\ UNCHANGED scope

WinOnes(w) == {p - w.a : p \in {q \in Ones : w.a <= q /\ q < w.b}}
WinSnap(sd) ==
    /\ sd \in Sides
    /\ LET w == WinOf(sd)
       IN  Observe(IF w.b > w.lim /\ WinLen(w) > 0
                   THEN Panic ELSE BitsR(WinLen(w), WinOnes(w)))

-----------------------------------------------------------------------------
(* Iterators.  A bit is reported as 0 or 1, exhaustion as 2. *)

Iter(sd) ==
    /\ sd \in Sides
    /\ Push(IterScope(Top.slot, WinOf(sd)))
    /\ out' = Ok
    /\ UNCHANGED objs

Left == Top.end - Top.pos
Code(p) == IF IsOne(p) THEN 1 ELSE 0
Cursor(p) == scope' = [scope EXCEPT ![Len(scope)].pos = p]
Consume   == scope' = [scope EXCEPT ![Len(scope)].gone = TRUE]
Usable    == InIter /\ ~Top.gone

Next_ ==
    /\ Usable
    /\ IF Left <= 0
       THEN out' = IntR(2) /\ UNCHANGED scope
       ELSE IF Top.pos >= Top.lim
            THEN out' = Panic /\ UNCHANGED scope
            ELSE out' = IntR(Code(Top.pos)) /\ Cursor(Top.pos + 1)
    /\ UNCHANGED objs

\* Skips k bits and yields the one after them
Nth(k) ==
    /\ Usable
    /\ Top.end <= Top.lim
    /\ IF 0 <= k /\ k < Left
       THEN out' = IntR(Code(Top.pos + k)) /\ Cursor(Top.pos + k + 1)
       ELSE out' = IntR(2) /\ Cursor(Top.end)
    /\ UNCHANGED objs

IterLen  == Usable /\ Observe(IntR(Left))
IterHint == Usable /\ Observe(ListR(<<Left, Left>>))
\* The length an adapter computes that skips k more bits
SkipLen(k) == Usable /\ Observe(IntR(IF k < 0 THEN 0 ELSE Max2(Left - k, 0)))

RestOnes == {p - Top.pos : p \in {q \in Ones : Top.pos <= q /\ q < Top.end}}

\* All remaining bits, pulled one by one from the iterator, which remains usable ...
DrainNext ==
    /\ Usable
    /\ IF Top.end > Top.lim /\ Left > 0
       THEN out' = Panic /\ Cursor(Max2(Top.lim, Top.pos))
       ELSE out' = BitsR(Left, RestOnes) /\ Cursor(Top.end)
    /\ UNCHANGED objs

\* ... or by consuming it
Consuming(r) ==
    /\ Usable
    /\ Top.end <= Top.lim
    /\ out' = r
    /\ Consume
    /\ UNCHANGED objs
DrainAll == Consuming(BitsR(Left, RestOnes))
Count    == Consuming(IntR(Left))
Last     == Consuming(IntR(IF Left = 0 THEN 2 ELSE Code(Top.end - 1)))

-----------------------------------------------------------------------------
(* What holds in every state *)

StoreTypeOK ==
    /\ \A s \in Slots :
         /\ objs[s].n \in Nat
         /\ objs[s].ones \subseteq 0..(objs[s].n - 1)
    /\ \A d \in 1..Len(scope) :
         /\ scope[d].slot \in Slots
         /\ \A k \in 1..Len(scope[d].wins) :
              LET w == scope[d].wins[k] IN
                /\ 0 <= w.a /\ w.a <= w.b
                /\ w.lim <= objs[scope[d].slot].n

\* The two halves of a split are disjoint and adjacent
SplitDisjoint ==
    \A d \in 1..Len(scope) :
        Len(scope[d].wins) = 2 => scope[d].wins[1].b = scope[d].wins[2].a

\* A call that is rejected changes nothing that can be observed later
RejectedHasNoEffect == [][out' = Panic => objs' = objs]_storeVars

\* A single call changes at most one bit of one object, unless it replaces the object
OneBitPerCall ==
    [][\A s \in Slots :
          (objs[s].live /\ objs'[s].live /\ objs[s] # objs'[s] /\ scope # <<>>)
            => /\ objs[s].n = objs'[s].n
               /\ Cardinality((objs[s].ones \ objs'[s].ones)
                              \cup (objs'[s].ones \ objs[s].ones)) = 1
               /\ s = Top.slot]_storeVars

\* Nothing is written through a scope that is not mutable
SharedIsReadOnly ==
    [][(scope # <<>> /\ ~Top.mut) => objs' = objs]_storeVars
=============================================================================
