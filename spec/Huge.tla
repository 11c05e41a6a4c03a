-------------------------------- MODULE Huge ---------------------------------
(***************************************************************************)
(* A bit vector and an integer vector that are so long that positions and  *)
(* counts do not fit into 32 bits.  The vector consists of a background    *)
(* bit and a set of exceptions; integer i is i (its lower bits, for narrow *)
(* integers), apart from exceptions.                                       *)
(* All numbers are pairs.                                                  *)
(***************************************************************************)
EXTENDS Pairs, Sequences, FiniteSets

VARIABLES len,      \* length of the bit vector
          bg,       \* background bit
          exc,      \* positions that differ from the background
          idx,      \* is there a rank/select index?
          iw, ilen, iexc,   \* integers: width, count, exceptions as a function
          hout

hugeVars == <<len, bg, exc, idx, iw, ilen, iexc, hout>>
hkeep    == <<len, bg, exc, idx, iw, ilen, iexc>>

Zero == <<0, 0>>

HugeInit ==
    /\ len = Zero /\ bg = 0 /\ exc = {} /\ idx = FALSE
    /\ iw = 1 /\ ilen = Zero /\ iexc = <<>> /\ hout = <<"ok", 0>>

BitAt(p) == IF p \in exc THEN 1 - bg ELSE bg
Before(p) == Cardinality({e \in exc : PLt(e, p)})
Ones(p)   == IF bg = 0 THEN PairOf(Before(p)) ELSE PSub(p, PairOf(Before(p)))

New(n, b) ==
    /\ len' = n /\ bg' = b /\ exc' = {} /\ idx' = FALSE
    /\ hout' = <<"ok", 0>>
    /\ UNCHANGED <<iw, ilen, iexc>>

\* From now on the clone is looked at; what happens to the original does not matter
Clone == /\ hout' = <<"ok", 0>>
         /\ UNCHANGED hkeep

\* A window is reached through a chain of ranges and halves, each relative to the one before
RECURSIVE Reach(_, _, _)
Reach(chain, off, n) ==
    IF chain = <<>> THEN <<TRUE, off, n>>
    ELSE LET r  == Head(chain)
             to == IF r.how = "right" THEN n ELSE r.to
             ok == IF r.how = "range" THEN PLe(r.from, r.to) /\ PLe(r.to, n)
                   ELSE PLt(IF r.how = "left" THEN r.to ELSE r.from, n)
         IN  IF ok THEN Reach(Tail(chain), PAdd(off, r.from), PSub(to, r.from))
             ELSE <<FALSE, off, n>>
Window(chain) == Reach(chain, Zero, len)

Get(chain, i) ==
    LET w == Window(chain) IN
    /\ hout' = IF w[1] /\ PLt(i, w[3]) THEN <<"bool", BitAt(PAdd(w[2], i))>> ELSE <<"panic", 0>>
    /\ UNCHANGED hkeep
Put(chain, i, v) ==
    LET w == Window(chain)
        p == PAdd(w[2], i)
        ok == w[1] /\ PLt(i, w[3])
    IN  /\ hout' = IF ok THEN <<"ok", 0>> ELSE <<"panic", 0>>
        /\ exc' = IF ~ok THEN exc
                  ELSE IF v = 2 THEN (IF p \in exc THEN exc \ {p} ELSE exc \cup {p})
                  ELSE IF v = bg THEN exc \ {p} ELSE exc \cup {p}
        /\ UNCHANGED <<len, bg, idx, iw, ilen, iexc>>
LenOf(chain) ==
    LET w == Window(chain) IN
    /\ hout' = IF w[1] THEN <<"pair", w[3]>> ELSE <<"panic", 0>>
    /\ UNCHANGED hkeep
\* The bits of a small window, in order
BitsOf(chain) ==
    LET w == Window(chain) IN
    /\ hout' = IF w[1] THEN <<"list", [k \in 1..w[3][2] |-> BitAt(PAdd(w[2], PairOf(k - 1)))]>>
               ELSE <<"panic", 0>>
    /\ UNCHANGED hkeep
Inside(w) == {PSub(e, w[2]) : e \in {e \in exc : PLe(w[2], e) /\ PLt(e, PAdd(w[2], w[3]))}}
\* What an iterator over a window has left after the first k elements
Rest(n, k) == IF PLt(k, n) THEN PSub(n, k) ELSE Zero
Scan(chain, k) ==
    LET w == Window(chain) IN
    /\ hout' = IF w[1] THEN <<"scan", <<Rest(w[3], k), {e \in Inside(w) : PLe(k, e)}>>>> ELSE <<"panic", 0>>
    /\ UNCHANGED hkeep
\* Every bit of a window is changed and changed back; looking around shows that bit only
Each(chain) ==
    LET w == Window(chain) IN
    /\ hout' = IF w[1] THEN <<"each", <<w[3], {}>>>> ELSE <<"panic", 0>>
    /\ UNCHANGED hkeep
\* All windows with the same start, all with the same length: for each its start, its length, the
\* bit looked at in it, what it was, and the positions of the vector that were seen to change.  The
\* change is undone each time.  These vectors are short.
Bit0(p) == BitAt(PairOf(p))
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + SumOf(S \ {x})
Exc0(a, m) == {e[2] - a + 1 : e \in {e \in exc : a <= e[2] /\ e[2] < a + m}}
Seen1(a, m, i, how) ==
    CASE how = "get"  -> <<a, m, i, Bit0(a + i), <<>>>>
      \* nothing behind the end is accepted, and nothing changes
      [] how = "bad"  -> <<a, m, 0, 0, <<>>>>
      \* what an iterator has to give: how many in all, and those that are not like the background
      [] how = "iter" -> LET E == Exc0(a, m) IN <<a, m, m, Cardinality(E), <<SumOf(E)>>>>
      \* is it equal to the window that is as far from the end as this one is from the beginning?
      [] how = "eq"   -> LET same == Exc0(a, m) = Exc0(len[2] - m - a, m)
                         IN  <<a, m, IF same THEN 0 ELSE 1, IF same THEN 1 ELSE 0, <<>>>>
      [] OTHER        -> <<a, m, i, Bit0(a + i), <<a + i>>>>
SameStart(a, how) ==
    /\ len[1] = 0
    /\ hout' = <<"wins", UNION {{Seen1(a, m, i, how) : i \in {0, m \div 2, m - 1}} : m \in 1..(len[2] - a)}>>
    /\ UNCHANGED hkeep
SameLength(m, how) ==
    /\ len[1] = 0
    /\ hout' = <<"wins", {Seen1(a, m, IF a % 2 = 0 THEN 0 ELSE m - 1, how) : a \in 0..(len[2] - m)}>>
    /\ UNCHANGED hkeep
\* What lies right of every position is split behind k bits; the last bit of the left half and the
\* first bit of the right half are changed
SamePart(k) ==
    /\ len[1] = 0
    /\ hout' = <<"wins", {<<a, k, len[2] - a - k, Bit0(a + k - 1), Bit0(a + k), <<a + k - 1, a + k>>>> : a \in 0..(len[2] - k - 1)}>>
    /\ UNCHANGED hkeep
\* Whatever is tried at n places behind a window is rejected
Reject(chain, n) ==
    LET w == Window(chain) IN
    /\ hout' = IF w[1] THEN <<"each", <<n, {}>>>> ELSE <<"panic", 0>>
    /\ UNCHANGED hkeep
\* Every bit of a window is flipped, or all are set to the same value.  The window leaves out a few
\* bits at most, so that the background changes.
Left(w) == {PairOf(k) : k \in 0..(w[2][2] - 1)}
           \cup LET e == PAdd(w[2], w[3]) IN {PAdd(e, PairOf(k)) : k \in 0..(PSub(len, e)[2] - 1)}
All(chain, how) ==
    LET w == Window(chain)
        new == IF how = "flip" THEN 1 - bg ELSE IF how = "1" THEN 1 ELSE 0
        kept == {p \in Left(w) : BitAt(p) # new}
        inside == {e \in exc : PLe(w[2], e) /\ PLt(e, PAdd(w[2], w[3]))}
    IN  /\ w[1]
        /\ w[2][1] = 0 /\ PSub(len, PAdd(w[2], w[3]))[1] = 0
        /\ hout' = <<"ok", 0>>
        /\ bg' = new
        /\ exc' = kept \cup (IF how = "flip" THEN inside ELSE {})
        /\ UNCHANGED <<len, idx, iw, ilen, iexc>>
LastOf(chain, k) ==
    LET w == Window(chain) IN
    /\ hout' = IF ~w[1] THEN <<"panic", 0>>
               ELSE IF PLt(k, w[3]) THEN <<"bool", BitAt(PSub(PAdd(w[2], w[3]), <<0, 1>>))>> ELSE <<"none", 0>>
    /\ UNCHANGED hkeep
CountOf(chain, k) ==
    LET w == Window(chain) IN
    /\ hout' = IF w[1] THEN <<"pair", Rest(w[3], k)>> ELSE <<"panic", 0>>
    /\ UNCHANGED hkeep
\* Are two windows equal?
Equal(c, d) ==
    LET v == Window(c)
        w == Window(d)
        same == v[3] = w[3] /\ Inside(v) = Inside(w)
    IN  /\ hout' = IF v[1] /\ w[1] THEN <<"bool", IF same THEN 1 ELSE 0>> ELSE <<"panic", 0>>
        /\ UNCHANGED hkeep
\* The one bits of word k, and how many words there are
Word(k) ==
    LET at == PMul(k, 64) IN
    /\ hout' = <<"list", SelectSeq([b \in 1..64 |-> IF PLt(PAdd(at, PairOf(b - 1)), len)
                                                    THEN (IF BitAt(PAdd(at, PairOf(b - 1))) = 1 THEN b - 1 ELSE 64)
                                                    ELSE 64], LAMBDA b : b < 64)>>
    /\ UNCHANGED hkeep
Words == /\ hout' = <<"pair", PDiv64(PAdd(len, <<0, 63>>))>>
         /\ UNCHANGED hkeep

Build == /\ idx' = TRUE /\ hout' = <<"ok", 0>>
         /\ UNCHANGED <<len, bg, exc, iw, ilen, iexc>>
Rank(b, p) ==
    /\ idx
    /\ hout' = IF PLt(len, p) THEN <<"panic", 0>>
               ELSE <<"pair", IF b = 1 THEN Ones(p) ELSE PSub(p, Ones(p))>>
    /\ UNCHANGED hkeep
\* The one with k ones before it
Place(k) ==
    IF bg = 0 THEN CHOOSE e \in exc : PairOf(Before(e)) = k
    ELSE LET c == CHOOSE c \in 0..Cardinality(exc) :
                    LET p == PAdd(k, PairOf(c)) IN p \notin exc /\ Before(p) = c
         IN  PAdd(k, PairOf(c))
Select(k) ==
    /\ idx
    /\ hout' = IF PLt(k, Ones(len)) THEN <<"pair", Place(k)>> ELSE <<"none", 0>>
    /\ UNCHANGED hkeep

\* Integers
INew(w, n) ==
    /\ iw' = w /\ ilen' = n /\ iexc' = <<>>
    /\ hout' = <<"ok", 0>>
    /\ UNCHANGED <<len, bg, exc, idx>>
Plain(i) == IF iw >= 32 THEN i ELSE IF iw >= 20 THEN <<0, i[2]>> ELSE <<0, i[2] % (2 ^ iw)>>
IntAt(i) == IF i \in DOMAIN iexc THEN iexc[i] ELSE Plain(i)
IGet(i) ==
    /\ hout' = IF PLt(i, ilen) THEN <<"pair", IntAt(i)>> ELSE <<"panic", 0>>
    /\ UNCHANGED hkeep
ISet(i, v) ==
    /\ hout' = IF PLt(i, ilen) THEN <<"ok", 0>> ELSE <<"panic", 0>>
    /\ iexc' = IF PLt(i, ilen) THEN [j \in (DOMAIN iexc) \cup {i} |-> IF j = i THEN v ELSE iexc[j]] ELSE iexc
    /\ UNCHANGED <<len, bg, exc, idx, iw, ilen>>
IPush(v) ==
    /\ hout' = <<"ok", 0>>
    /\ ilen' = PAdd(ilen, <<0, 1>>)
    /\ iexc' = [j \in (DOMAIN iexc) \cup {ilen} |-> IF j = ilen THEN v ELSE iexc[j]]
    /\ UNCHANGED <<len, bg, exc, idx, iw>>
ILen == /\ hout' = <<"pair", ilen>> /\ UNCHANGED hkeep
IScan(k, owning) ==
    /\ hout' = <<"scan", <<Rest(ilen, k), {<<i, iexc[i]>> : i \in {i \in DOMAIN iexc : PLe(k, i) /\ iexc[i] # Plain(i)}}>>>>
    /\ IF owning THEN iw' = 1 /\ ilen' = Zero /\ iexc' = <<>> ELSE UNCHANGED <<iw, ilen, iexc>>
    /\ UNCHANGED <<len, bg, exc, idx>>
\* A vector is made, and at every length something is rejected
IGrow(w, n) ==
    /\ iw' = w /\ ilen' = n /\ iexc' = <<>>
    /\ hout' = <<"each", <<n, {}>>>>
    /\ UNCHANGED <<len, bg, exc, idx>>
\* Something is done to every element in turn that has no effect in the end
IEach == /\ hout' = <<"each", <<ilen, {}>>>>
         /\ UNCHANGED hkeep
IWords == /\ hout' = <<"pair", PAdd(PDiv64(PMul(ilen, iw)), <<0, 1>>)>>
          /\ UNCHANGED hkeep
=============================================================================
