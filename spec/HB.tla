--------------------------------- MODULE HB ---------------------------------
(***************************************************************************)
(* The happens-before relation of the C++ memory model, for executions in  *)
(* which every atomic read sees the latest write, as vector clocks, and    *)
(* the data races it leaves.                                               *)
(*                                                                         *)
(* Traces are recorded from the real code by harness/mc.  An event is      *)
(*   <<kind, thread, locations, memory order>>                             *)
(*   r w F  plain read, write; freeing                                     *)
(*   L S X  atomic load, store, read-modify-write                          *)
(*   N      fence                                                          *)
(*   K U    a lock of the test program taken, given back                   *)
(*   B J    the main thread starts the others, joins them                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES i,   \* which trace
          todo, \* its events still to come
          k,   \* events done
          vc,  \* what each thread knows of each thread
          aq,  \* what an acquire fence would add
          rf,  \* what a release fence has published
          sy,  \* what reading each atomic variable yields
          lk,  \* and taking each lock
          ac,  \* the accesses to each location
          bad  \* a race: the two events, or <<>>
vars == <<i, todo, k, vc, aq, rf, sy, lk, ac, bad>>

T == DOMAIN vc
E == Head(todo)
Max(a, b) == [t \in DOMAIN a |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
None == [t \in T |-> 0]
Acq(o) == o \in {1, 2, 4, 5}
Rel(o) == o \in {3, 4, 5}
Get(f, l) == IF l \in DOMAIN f THEN f[l] ELSE None
Put(f, l, v) == [x \in DOMAIN f \cup {l} |-> IF x = l THEN v ELSE f[x]]
Tick(f, t) == [f EXCEPT ![t][t] = @ + 1]

\* access kinds: 1 read, 2 write, 3 atomic read, 4 atomic write
Kind(e) == CASE e[1] = "r" -> 1 [] e[1] \in {"w", "F"} -> 2 [] e[1] = "L" -> 3 [] OTHER -> 4
Conflict(a, b) == (a \in {2, 4} \/ b \in {2, 4}) /\ ~(a \in {3, 4} /\ b \in {3, 4})

Acc(l) == IF l \in DOMAIN ac THEN ac[l] ELSE {}
Racing(e) == {<<l, a>> \in UNION {{<<l, a>> : a \in Acc(l)} : l \in {e[3][j] : j \in 1..Len(e[3])}} :
                a[1] # e[2] /\ Conflict(a[3], Kind(e)) /\ a[2] > vc[e[2]][a[1]]}
\* the accesses remembered: a thread's latest of each kind
Noted(e) == [l \in DOMAIN ac \cup {e[3][j] : j \in 1..Len(e[3])} |->
              IF \E j \in 1..Len(e[3]) : e[3][j] = l
              THEN {a \in Acc(l) : a[1] # e[2] \/ a[3] # Kind(e)} \cup {<<e[2], vc[e[2]][e[2]], Kind(e)>>}
              ELSE ac[l]]

\* trace number c, of so many threads besides the main one, with these events
Start(c, threads, events) ==
        /\ i = c /\ todo = events /\ k = 0
        /\ vc = [t \in 0..threads |-> [u \in 0..threads |-> IF t = u THEN 1 ELSE 0]]
        /\ aq = [t \in 0..threads |-> [u \in 0..threads |-> 0]] /\ rf = [t \in 0..threads |-> [u \in 0..threads |-> 0]]
        /\ sy = << >> /\ lk = << >> /\ ac = << >> /\ bad = << >>

Access == /\ ac' = Noted(E)
          /\ bad' = IF bad = << >> /\ Racing(E) # {} THEN <<k + 1, CHOOSE x \in Racing(E) : TRUE>> ELSE bad

Plain == E[1] \in {"r", "w", "F"} /\ Access /\ UNCHANGED <<vc, aq, rf, sy, lk>>
Load == /\ E[1] = "L" /\ Access
        /\ LET t == E[2] v == Get(sy, E[3][1]) IN
           /\ aq' = [aq EXCEPT ![t] = Max(@, v)]
           /\ vc' = IF Acq(E[4]) THEN [vc EXCEPT ![t] = Max(@, v)] ELSE vc
        /\ UNCHANGED <<rf, sy, lk>>
Store == /\ E[1] = "S" /\ Access
         /\ LET t == E[2] v == IF Rel(E[4]) THEN Max(rf[t], vc[t]) ELSE rf[t] IN
            /\ sy' = Put(sy, E[3][1], v)
            /\ vc' = IF Rel(E[4]) THEN Tick(vc, t) ELSE vc
         /\ UNCHANGED <<aq, rf, lk>>
RMW == /\ E[1] = "X" /\ Access
       /\ LET t == E[2]
              r == Get(sy, E[3][1])
              c == IF Acq(E[4]) THEN [vc EXCEPT ![t] = Max(@, r)] ELSE vc
              v == IF Rel(E[4]) THEN Max(rf[t], c[t]) ELSE rf[t] IN
          /\ aq' = [aq EXCEPT ![t] = Max(@, r)]
          /\ sy' = Put(sy, E[3][1], Max(r, v))        \* continues the release sequence
          /\ vc' = IF Rel(E[4]) THEN Tick(c, t) ELSE c
       /\ UNCHANGED <<rf, lk>>
Fence == /\ E[1] = "N"
         /\ LET t == E[2] c == IF Acq(E[4]) THEN [vc EXCEPT ![t] = Max(@, aq[t])] ELSE vc IN
            /\ rf' = IF Rel(E[4]) THEN [rf EXCEPT ![t] = Max(@, c[t])] ELSE rf
            /\ vc' = IF Rel(E[4]) THEN Tick(c, t) ELSE c
         /\ UNCHANGED <<aq, sy, lk, ac, bad>>
Lock == /\ E[1] = "K"
        /\ vc' = [vc EXCEPT ![E[2]] = Max(@, Get(lk, E[3][1]))]
        /\ UNCHANGED <<aq, rf, sy, lk, ac, bad>>
Unlock == /\ E[1] = "U"
          /\ lk' = Put(lk, E[3][1], Max(Get(lk, E[3][1]), vc[E[2]]))
          /\ vc' = Tick(vc, E[2])
          /\ UNCHANGED <<aq, rf, sy, ac, bad>>
Begin == /\ E[1] = "B"
         /\ vc' = [t \in T |-> IF t = 0 THEN [vc[0] EXCEPT ![0] = @ + 1] ELSE [vc[0] EXCEPT ![t] = 1]]
         /\ UNCHANGED <<aq, rf, sy, lk, ac, bad>>
Join == /\ E[1] = "J"
        /\ vc' = [vc EXCEPT ![0] = [u \in T |-> LET S == {vc[t][u] : t \in T} IN CHOOSE x \in S : \A y \in S : y <= x]]
        /\ UNCHANGED <<aq, rf, sy, lk, ac, bad>>

Next == /\ todo # << >>
        /\ todo' = Tail(todo) /\ k' = k + 1 /\ i' = i
        /\ (Plain \/ Load \/ Store \/ RMW \/ Fence \/ Lock \/ Unlock \/ Begin \/ Join)
        /\ (todo' = << >> => PrintT("V " \o ToString(<<i, bad'>>)))
-----------------------------------------------------------------------------
\* knowledge only grows, and nobody knows more of a thread than it does itself
Sane == \A t \in T : \A u \in T : vc[t][u] <= vc[u][u]
Grows == [][\A t \in T : \A u \in T : vc[t][u] <= vc'[t][u]]_vars
=============================================================================
