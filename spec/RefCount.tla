------------------------------ MODULE RefCount ------------------------------
(***************************************************************************)
(* One reference count, used by one thread at a time: the sequential type  *)
(* which Conc.tla's "ci cd cz cc" use concurrently, for counts of any size.*)
(* A count is a pair of 16-bit digits, as TLC's integers are 32 bits wide. *)
(*                                                                         *)
(* Every transition is taken in the real atomic_ref_count and              *)
(* local_ref_count by harness/rc.cpp.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Seeds      \* counts to start from
VARIABLES c, d      \* the count; how far from the seed

B == 65536
Zero == <<0, 0>>
Max == <<B - 1, B - 1>>
Plus1(x) == IF x[2] = B - 1 THEN <<x[1] + 1, 0>> ELSE <<x[1], x[2] + 1>>
Minus1(x) == IF x[2] = 0 THEN <<x[1] - 1, B - 1>> ELSE <<x[1], x[2] - 1>>

\* <<operation, result, next>>; only who holds a reference adds one or gives one up
Ops(x) == {<<"count", x, x>>}
          \cup (IF x # Zero /\ x # Max THEN {<<"inc", Plus1(x), Plus1(x)>>} ELSE {})
          \cup (IF x # Zero THEN {<<"dec", Minus1(x), Minus1(x)>>} ELSE {})
          \cup (IF x = Zero THEN {<<"inc_nz", Zero, Zero>>} ELSE IF x # Max THEN {<<"inc_nz", Plus1(x), Plus1(x)>>} ELSE {})

Init == c \in Seeds /\ d = 0
Next == d < 3 /\ \E o \in Ops(c) : c' = o[3] /\ d' = d + 1 /\ PrintT("E " \o ToString(<<c, o>>))
Spec == Init /\ [][Next]_<<c, d>>
-----------------------------------------------------------------------------
InRange == c[1] \in 0..(B - 1) /\ c[2] \in 0..(B - 1)
\* a conditional increment yields zero exactly when the count is zero, and nothing leaves zero
ZeroIsFinal == \A o \in Ops(c) : /\ o[1] = "inc_nz" => (o[2] = Zero <=> c = Zero)
                                 /\ c = Zero => o[3] = Zero
StaysZero == [][c = Zero => c' = Zero]_<<c, d>>
=============================================================================
