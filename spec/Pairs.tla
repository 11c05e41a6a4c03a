-------------------------------- MODULE Pairs --------------------------------
(* Numbers that are too large for TLC, as pairs <<high, low>> in base 2^20.   *)
EXTENDS Integers

Base == 1048576

PairOf(n)  == <<n \div Base, n % Base>>
PLt(a, b)  == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PLe(a, b)  == a = b \/ PLt(a, b)
PAdd(a, b) == LET s == a[2] + b[2] IN <<a[1] + b[1] + s \div Base, s % Base>>
\* for b <= a
PSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
              ELSE <<a[1] - b[1] - 1, a[2] + Base - b[2]>>
\* for factors below 2^10
PMul(a, k) == LET s == a[2] * k IN <<a[1] * k + s \div Base, s % Base>>
PDiv64(a)  == <<a[1] \div 64, (a[1] % 64) * (Base \div 64) + a[2] \div 64>>
\* the numbers a .. a + n - 1
PFrom(a, n) == {PAdd(a, PairOf(k)) : k \in 0..(n - 1)}

\* What is used of these, as a check of their definitions for small numbers
PairsOK(bound) ==
    \A x \in bound, y \in bound :
        /\ PLt(PairOf(x), PairOf(y)) = (x < y)
        /\ PAdd(PairOf(x), PairOf(y)) = PairOf(x + y)
        /\ y <= x => PSub(PairOf(x), PairOf(y)) = PairOf(x - y)
        /\ PDiv64(PairOf(x)) = PairOf(x \div 64)
        /\ x < 4000000 => PMul(PairOf(x), 64) = PairOf(x * 64)
=============================================================================
