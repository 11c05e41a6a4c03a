---------------------------- MODULE HalvesTrace ------------------------------
(***************************************************************************)
(* Two threads each run a program of writes and reads on their half of a   *)
(* split, many times over, and afterwards the parent is read.  What each   *)
(* of them reads and what the parent holds must be as if the halves were   *)
(* separate objects.  With Weak, the bits of a word that both halves share *)
(* may hold anything; see SplitRace.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANT Weak

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == Trace[l]

\* A program is a sequence of <<0, i, v>> (set), <<1, i, 0>> (flip) and <<2, i, 0>> (get).
\* It sets every bit it uses before it uses it in any other way, so each run of it is
\* like the first and does not depend on what was there before.
SelfContained(prog) ==
    \A j \in 1..Len(prog) :
        prog[j][1] # 0 => \E h \in 1..(j - 1) : prog[h][1] = 0 /\ prog[h][2] = prog[j][2]

Used(prog) == {prog[j][2] : j \in 1..Len(prog)}
\* The value of a used bit after instruction j: as last set, and flipped since
BitAfter(prog, i, j) ==
    LET sets  == {h \in 1..j : prog[h][1] = 0 /\ prog[h][2] = i}
        last  == CHOOSE h \in sets : \A g \in sets : g <= h
        flips == {h \in (last + 1)..j : prog[h][1] = 1 /\ prog[h][2] = i}
    IN  (prog[last][3] + Cardinality(flips)) % 2
\* The half after the program
After(prog, ones) == (ones \ Used(prog)) \cup {i \in Used(prog) : BitAfter(prog, i, Len(prog)) = 1}
\* The answers of its reads, in order, as <<position, bit>>
Reads(prog) ==
    LET idx == SelectSeq([j \in 1..Len(prog) |-> <<prog[j][1], j>>], LAMBDA c : c[1] = 2)
    IN  [r \in 1..Len(idx) |-> <<prog[idx[r][2]][2], BitAfter(prog, prog[idx[r][2]][2], idx[r][2])>>]

\* Vector of n bits with initial ones, the window a .. b of it split at k
N  == Ev.a[1]
Lo == Ev.a[2]
Hi == Ev.a[3]
K  == Ev.a[4]
Shared(p) == Weak /\ (Lo + K) % 64 # 0 /\ p \div 64 = (Lo + K) \div 64
Ini == {Ev.ini[j] : j \in 1..Len(Ev.ini)}
Half(off, len) == {p - off : p \in {q \in Ini : off <= q /\ q < off + len}}
Left  == Half(Lo, K)
Right == Half(Lo + K, Hi - Lo - K)
Shift(S, d) == {p + d : p \in S}
Final == (Ini \ (Lo..(Hi - 1))) \cup Shift(After(Ev.p1, Left), Lo)
                                 \cup Shift(After(Ev.p2, Right), Lo + K)

\* Each read is observed as the set of answers it ever got: <<position, answers>>
ReadsOK(off, prog, seen) ==
    LET want == Reads(prog) IN
      /\ Len(seen) = Len(want)
      /\ \A j \in 1..Len(want) :
           \/ Shared(off + want[j][1])
           \/ seen[j] = <<want[j][2]>>

Got == Ev.res[2]
FinalOK == LET have == {Got.ones[j] : j \in 1..Len(Got.ones)} IN
             {p \in have : ~Shared(p)} = {p \in Final : ~Shared(p)}

Valid == /\ SelfContained(Ev.p1) /\ SelfContained(Ev.p2)
         /\ 0 <= Lo /\ Lo <= Hi /\ Hi <= N /\ K < Hi - Lo

TraceInit == l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ Ev.op = "halves"
    /\ Ev.res[1] = "halves"
    /\ IF /\ Valid
          /\ FinalOK
          /\ ReadsOK(Lo, Ev.p1, Got.r1)
          /\ ReadsOK(Lo + K, Ev.p2, Got.r2)
       THEN TRUE
       ELSE PrintT(<<"EXPECTED", l, <<Final, Reads(Ev.p1), Reads(Ev.p2)>>>>) /\ FALSE
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l

TraceReport == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
