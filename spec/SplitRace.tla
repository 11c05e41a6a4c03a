------------------------------ MODULE SplitRace ------------------------------
(***************************************************************************)
(* Two threads write through the two mutable halves of a split.  A write   *)
(* to a bit loads the word it lies in, changes one bit of it and stores    *)
(* the word; with Atomic these are one step.                               *)
(*                                                                         *)
(* TLC shows that writes are lost exactly if the halves share a word,      *)
(* that is, if the split position is not a multiple of the word size.      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS W,            \* bits per word
          N,            \* bits of the vector
          Splits,       \* split positions
          MaxWrites,    \* writes per thread
          Atomic        \* BOOLEAN

VARIABLES k,            \* where the vector is split
          mem,          \* the set of one bits in memory
          want,         \* per thread: what its half should hold
          pc,           \* per thread: "idle" or "store"
          reg,          \* per thread: the loaded word, as set of one bits
          pend,         \* per thread: the pending write <<position, value>>
          done          \* per thread: number of writes

vars == <<k, mem, want, pc, reg, pend, done>>

T == {1, 2}
Bits(t) == IF t = 1 THEN 0..(k - 1) ELSE k..(N - 1)
WordOf(p) == {q \in 0..(N - 1) : q \div W = p \div W}
Put(S, p, v) == IF v THEN S \cup {p} ELSE S \ {p}

Init ==
    /\ k \in Splits
    /\ mem = {}
    /\ want = [t \in T |-> {}]
    /\ pc = [t \in T |-> "idle"]
    /\ reg = [t \in T |-> {}]
    /\ pend = [t \in T |-> <<0, FALSE>>]
    /\ done = [t \in T |-> 0]

Load(t) ==
    /\ pc[t] = "idle" /\ done[t] < MaxWrites
    /\ \E p \in Bits(t), v \in BOOLEAN :
         /\ want' = [want EXCEPT ![t] = Put(@, p, v)]
         /\ done' = [done EXCEPT ![t] = @ + 1]
         /\ IF Atomic
            THEN mem' = Put(mem, p, v) /\ UNCHANGED <<pc, reg, pend>>
            ELSE /\ reg' = [reg EXCEPT ![t] = mem \cap WordOf(p)]
                 /\ pend' = [pend EXCEPT ![t] = <<p, v>>]
                 /\ pc' = [pc EXCEPT ![t] = "store"]
                 /\ UNCHANGED mem
    /\ UNCHANGED k

Store(t) ==
    /\ pc[t] = "store"
    /\ LET p == pend[t][1]
       IN  mem' = (mem \ WordOf(p)) \cup Put(reg[t], p, pend[t][2])
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ reg' = [reg EXCEPT ![t] = {}]
    /\ pend' = [pend EXCEPT ![t] = <<0, FALSE>>]
    /\ UNCHANGED <<k, want, done>>

Spec == Init /\ [][\E t \in T : Load(t) \/ Store(t)]_vars

Quiet == \A t \in T : pc[t] = "idle"
\* Once both threads pause, memory holds both halves' writes
Joined == Quiet => mem = want[1] \cup want[2]
\* The writes that can be lost are those to the word that both halves share
Shared == IF k % W = 0 \/ k = 0 THEN {} ELSE WordOf(k)
OnlySharedWordSuffers == Quiet => (mem \ Shared) = ((want[1] \cup want[2]) \ Shared)
=============================================================================
