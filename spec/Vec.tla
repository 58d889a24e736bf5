---------------------------------- MODULE Vec ---------------------------------
(* Integer vectors.  The definitions are the specification; TLC evaluates them
   with java/HP.java's equivalents, for speed. *)
EXTENDS Integers, Sequences

VAxpy(a, k, b) == [t \in 1..Len(a) |-> a[t] + k * b[t]]   \* a + k b
VScale(k, a)   == [t \in 1..Len(a) |-> k * a[t]]          \* k a
VPut(a, j, v)  == [t \in 1..Len(a) |-> IF t = j THEN v ELSE a[t]]
VIsZero(a)     == \A t \in 1..Len(a) : a[t] = 0
VDot(a, b)     == LET s[t \in 0..Len(a)] == IF t = 0 THEN 0 ELSE s[t-1] + a[t] * b[t]
                  IN  s[Len(a)]
===============================================================================
