------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* The default allocator, used directly: storage for n objects of a type   *)
(* is handed out, belongs to its user alone, and is returned once, to any  *)
(* allocator of that type (all are equal, and convert into each other).    *)
(*                                                                         *)
(* Every transition is taken in the real xmem::allocator by                *)
(* harness/alloc.cpp.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NBlock,   \* blocks in use at the same time
          Types,    \* kinds of objects: small, ordinary, over-aligned ..
          Counts    \* numbers of objects asked for
VARIABLES b, op, pre

Free == [t |-> 0, n |-> 0]
Blocks == 1..NBlock
View(x) == [i \in Blocks |-> <<x[i].t, x[i].n>>]
Show(pr, o, po) == PrintT("T " \o ToString(<<View(pr), o, << >>, View(po)>>))

Init == b = [i \in Blocks |-> Free] /\ op = << >> /\ pre = [i \in Blocks |-> Free] /\ PrintT("I " \o ToString(View(b)))
\* how: by an allocator of that type; by one converted from another type; rebound; by allocator_traits
Hows == {"own", "converted", "rebound", "traits"}
Get(i, t, n, h) == /\ b[i] = Free
                   /\ \A j \in Blocks : j < i => b[j] # Free
                   /\ op' = <<"Get", i, t, n, h>> /\ b' = [b EXCEPT ![i] = [t |-> t, n |-> n]]
Put(i, h) == /\ b[i] # Free
             /\ op' = <<"Put", i, b[i].t, b[i].n, h>> /\ b' = [b EXCEPT ![i] = Free]
Next == /\ \/ \E i \in Blocks, t \in Types, n \in Counts, h \in Hows : Get(i, t, n, h)
           \/ \E i \in Blocks, h \in Hows : Put(i, h)
        /\ pre' = b
        /\ Show(b, op', b')
vars == <<b, op, pre>>
V == b      \* op and pre are history
-----------------------------------------------------------------------------
Given == \A i \in Blocks : b[i] = Free \/ (b[i].t \in Types /\ b[i].n \in Counts)
\* an operation concerns one block only
Others == op = << >> \/ \A i \in Blocks : i # op[2] => b[i] = pre[i]
=============================================================================
