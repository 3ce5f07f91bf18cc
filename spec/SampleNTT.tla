----------------------------- MODULE SampleNTT -----------------------------
(* Algorithm 7 of FIPS 203 at the level of candidates: the standard looks at   *)
(* candidates in order and keeps those below q.  A step of an implementation    *)
(* may pass any number of rejected candidates and keep at most one.            *)
EXTENDS Naturals, Sequences
CONSTANTS Need
VARIABLES tape, taken, at

Low(n) == tape[(n + 1) \div 2][IF n % 2 = 1 THEN 1 ELSE 2]
Start == taken = <<>> /\ at = 0
Keep == \E n \in (at + 1)..(at + 2) :
          /\ Len(taken) < Need
          /\ taken' = Append(taken, n)
          /\ at' >= n
          /\ Low(n)'
          /\ \A k \in (at + 1)..at' : k # n => ~Low(k)'
Pass == at' >= at /\ taken' = taken /\ \A k \in (at + 1)..at' : ~Low(k)'
Grow == \E n \in 0..Len(tape') : tape = SubSeq(tape', 1, n)
Spec == Start /\ [][Grow /\ (Keep \/ Pass)]_<<tape, taken, at>>
=============================================================================
