-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* What concurrent programs over xmem's pointers may observe.              *)
(*                                                                         *)
(* Threads run short programs of API calls on pointers of their own and on *)
(* shared atomic storages.  A call is invoked (label I), takes effect in   *)
(* one or a few indivisible internal steps, and returns (label R, with its *)
(* result).  Destructions of objects (label D) and releases of control     *)
(* block storage (label F) are observable, with the thread that does them. *)
(* The behaviours of this specification, projected to the labels, are      *)
(* exactly what the implementation may do: that is linearizability of the  *)
(* storages and of the counts, and destruction exactly once by the thread  *)
(* whose release was the last one.                                         *)
(*                                                                         *)
(* The implementation's schedules are explored by harness/mc, which feeds  *)
(* each one's labels to the automaton TLC prints from this module.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

\* Scenarios: a sequence of records
\*   v  the values a pointer may have besides 0, empty: <<owner, address>>;
\*      value c up to the number of objects is <<c, c>>
\*   o  per object: what its destructor does, or -1 if a thread creates it,
\*      (-1-k if its destructor does k, see Script)
\*   s, w  initial values of each thread's shared and weak pointers
\*   g, h  values of shared and weak pointers common to all threads, which
\*      only read them
\*   q  initial values of the storages
\*   p  each thread's program: operations <<name, i, j, k>>
\*   c  <<a bare reference count, the references to it each thread holds>>
CONSTANT Scn

VARIABLES n, z    \* the scenario, its state

Thr == 1..Len(n.p)
Objs == 1..Len(n.o)
Own(v) == IF v = 0 THEN 0 ELSE n.v[v][1]
Adr(v) == IF v = 0 THEN 0 ELSE n.v[v][2]
Kind(o) == LET k == n.o[o] IN IF k < 0 THEN -k - 1 ELSE k

\* How many values of a sequence of sequences have owner o
Cnt(ss, o) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN 0 ELSE F[i-1] + Cardinality({j \in 1..Len(ss[i]) : Own(ss[i][j]) = o})
                  IN F[Len(ss)]
\* Object o, if it has been created and not destroyed, owns object o+1
Nested(o, ph) == IF o > 1 /\ Kind(o-1) = 4 /\ ph[o-1] = 1 THEN 1 ELSE 0

Start ==
  LET ph == [o \in 1..Len(n.o) |-> IF n.o[o] < 0 THEN 0 ELSE 1] IN
  [ pc |-> [t \in 1..Len(n.p) |-> 0],
    b  |-> [t \in 1..Len(n.p) |-> FALSE],         \* a call is in progress
    td |-> [t \in 1..Len(n.p) |-> <<>>],          \* what it has still to do
    r  |-> [t \in 1..Len(n.p) |-> 0],             \* its result so far
    x  |-> [t \in 1..Len(n.p) |-> 0],             \* its argument, passed by value
    s  |-> n.s, w |-> n.w, q |-> n.q,
    rs |-> [o \in 1..Len(n.o) |-> Cnt(n.s, o) + Cnt(<<n.q, n.g>>, o) + Nested(o, ph)],
    rw |-> [o \in 1..Len(n.o) |-> IF ph[o] = 0 THEN 0 ELSE Cnt(n.w, o) + Cnt(<<n.h>>, o) + 1],
    ph |-> ph,                                     \* 0 unborn 1 alive 2 destroyed 3 freed
    rc |-> n.c[1],                                 \* a bare reference count
    own |-> n.c[2] ]                               \* the references to it each thread holds

Push(y, t, ops) == [y EXCEPT !.td[t] = ops \o @]
DropIf(v) == LET o == Own(v) IN IF o = 0 THEN <<>> ELSE <<<<"drop", o, 0>>>>
DropWIf(v) == LET o == Own(v) IN IF o = 0 THEN <<>> ELSE <<<<"dropw", o, 0>>>>
Inc(y, v) == LET o == Own(v) IN IF o = 0 THEN y ELSE [y EXCEPT !.rs[o] = @ + 1]
\* the value a weak pointer with value v can lock: v if it has an owner still
Join(y, v) == LET o == Own(v) IN IF o # 0 /\ y.rs[o] > 0 THEN v ELSE 0
Count(y, v) == LET o == Own(v) IN IF o = 0 THEN 0 ELSE y.rs[o]

\* pointer i of thread t takes value v, whose owner is counted already
Take(y, t, i, v) == Push([y EXCEPT !.s[t][i] = v, !.r[t] = v], t, DropIf(y.s[t][i]))
TakeW(y, t, i, v) == LET o == Own(v) IN
  Push([IF o = 0 THEN y ELSE [y EXCEPT !.rw[o] = @ + 1] EXCEPT !.w[t][i] = v, !.r[t] = 0], t, DropWIf(y.w[t][i]))

\* the internal steps of a call
Expand(op) ==
  CASE op[1] = "st" -> <<<<"tcp", op[3], 0>>, <<"swp", op[2], 0>>, <<"tdr", 0, 0>>>>     \* q.store(y)
    [] op[1] = "sm" -> <<<<"tmv", op[3], 0>>, <<"swp", op[2], 0>>, <<"tdr", 0, 0>>>>     \* q.store(move(y))
    [] op[1] = "sn" -> <<<<"swp", op[2], 0>>, <<"tdr", 0, 0>>>>                          \* q.store(nullptr)
    [] op[1] = "xc" -> <<<<"tcp", op[4], 0>>, <<"swp", op[3], 0>>, <<"tas", op[2], 0>>>> \* x = q.exchange(y)
    [] op[1] = "xm" -> <<<<"tmv", op[4], 0>>, <<"swp", op[3], 0>>, <<"tas", op[2], 0>>>> \* x = q.exchange(move(y))
    [] op[1] = "cx" -> <<<<"tcp", op[4], 0>>, <<"cas", op[2], op[3]>>>>                  \* q.compare_exchange(e, y)
    [] op[1] = "cm" -> <<<<"tmv", op[4], 0>>, <<"cas", op[2], op[3]>>>>                  \* q.compare_exchange(e, move(y))
    \* as std::atomic<std::shared_ptr> may do it, with one more copy of y meanwhile
    [] op[1] = "cy" -> <<<<"tcp", op[4], 0>>, <<"mor", 0, 0>>, <<"cas", op[2], op[3]>>>>
    [] op[1] = "cn" -> <<<<"tmv", op[4], 0>>, <<"mor", 0, 0>>, <<"cas", op[2], op[3]>>>>
    [] op[1] = "cv" -> <<<<"tcp", op[3], 0>>, <<"cpx", op[2], 0>>, <<"tdr", 0, 0>>>>     \* through a temporary
    [] op[1] = "mb" -> <<<<"tmv", op[3], 0>>, <<"cpx", op[2], 0>>, <<"tdr", 0, 0>>>>
    [] op[1] = "gk" -> <<<<"tgc", op[3], 0>>, <<"cpx", op[2], 0>>, <<"tdr", 0, 0>>>>
    [] op[1] = "sh" -> <<<<"tjn", op[3], 0>>, <<"inx", 0, 0>>, <<"tas", op[2], 0>>>>  \* as sg, in two steps
    [] op[1] = "en" -> <<<<"ens", 0, 0>>>>                                               \* the thread lets go of everything
    [] OTHER -> <<op>>

Script(k, o) == \* run by the destructor of an object
  CASE k = 1 -> <<<<"qld", 1, 0>>>>     \* q.load()
    [] k = 2 -> <<<<"qst", 1, 0>>>>     \* q.store(nullptr) or q.exchange(nullptr)
    [] k = 3 -> <<<<"qcx", 1, 0>>>>     \* q.compare_exchange(null, null)
    [] k = 5 -> <<<<"wait", 0, 0>>>>      \* waits for the other threads' calls
    [] k = 4 -> <<<<"nest", o, 0>>>>      \* lets go of the object it owns
    [] OTHER -> <<>>

\* The internal steps: a set of possible results (most have one)
Step(y, t) ==
  LET m == Head(y.td[t]) u == [y EXCEPT !.td[t] = Tail(@)] IN
  CASE m[1] = "cp" -> LET c == y.s[t][m[3]] IN      \* x = y
                      IF m[2] = m[3] THEN {[u EXCEPT !.r[t] = c]} ELSE {Take(Inc(u, c), t, m[2], c)}
    [] m[1] = "mv" -> LET c == y.s[t][m[3]] IN      \* x = move(y)
                      IF m[2] = m[3] THEN {[u EXCEPT !.r[t] = c]} ELSE {Take([u EXCEPT !.s[t][m[3]] = 0], t, m[2], c)}
    [] m[1] = "rs" -> {Take(u, t, m[2], 0)}
    [] m[1] = "mk" -> LET c == m[3] IN {Take([u EXCEPT !.rs[c] = 1, !.rw[c] = 1, !.ph[c] = 1], t, m[2], c)}
    [] m[1] = "lk" -> LET c == Join(y, y.w[t][m[3]]) IN {Take(Inc(u, c), t, m[2], c)}  \* x = w.lock()
    [] m[1] = "sg" -> LET c == Join(y, m[3]) IN {Take(Inc(u, c), t, m[2], c)}          \* x = c->shared_from_this(), c registered
    \* the same from common pointers
    [] m[1] = "gc" -> LET c == n.g[m[3]] IN {Take(Inc(u, c), t, m[2], c)}
    [] m[1] = "gl" -> LET c == Join(y, n.h[m[3]]) IN {Take(Inc(u, c), t, m[2], c)}
    [] m[1] = "gw" -> {TakeW(u, t, m[2], n.h[m[3]])}
    [] m[1] = "gf" -> {TakeW(u, t, m[2], n.g[m[3]])}
    [] m[1] = "gu" -> {[u EXCEPT !.r[t] = Count(y, n.g[m[2]])]}
    [] m[1] = "gv" -> {[u EXCEPT !.r[t] = Count(y, n.h[m[2]])]}
    [] m[1] = "gx" -> {[u EXCEPT !.r[t] = IF Join(y, n.h[m[2]]) = 0 THEN 1 ELSE 0]}
    [] m[1] = "go" -> {[u EXCEPT !.r[t] = n.g[m[2]]]}
    [] m[1] = "wk" -> {TakeW(u, t, m[2], y.s[t][m[3]])}
    [] m[1] = "wc" -> IF m[2] = m[3] THEN {u} ELSE {TakeW(u, t, m[2], y.w[t][m[3]])}
    [] m[1] = "sw" -> {[u EXCEPT !.s[t][m[2]] = y.s[t][m[3]], !.s[t][m[3]] = y.s[t][m[2]], !.r[t] = y.s[t][m[3]]]}  \* swap
    [] m[1] = "ws" -> {[u EXCEPT !.w[t][m[2]] = y.w[t][m[3]], !.w[t][m[3]] = y.w[t][m[2]], !.r[t] = 0]}
    [] m[1] = "wm" -> LET c == y.w[t][m[3]] IN      \* w = move(v)
                      IF m[2] = m[3] THEN {u}
                      ELSE {Push([u EXCEPT !.w[t][m[2]] = c, !.w[t][m[3]] = 0], t, DropWIf(y.w[t][m[2]]))}
    [] m[1] = "wr" -> {TakeW(u, t, m[2], 0)}
    [] m[1] = "uc" -> LET c == y.s[t][m[2]] IN {[u EXCEPT !.r[t] = Count(y, c)]}
    [] m[1] = "wu" -> LET c == y.w[t][m[2]] IN {[u EXCEPT !.r[t] = Count(y, c)]}
    [] m[1] = "ex" -> LET c == y.w[t][m[2]] IN {[u EXCEPT !.r[t] = IF Join(y, c) = 0 THEN 1 ELSE 0]}
    [] m[1] = "us" -> {[u EXCEPT !.r[t] = y.s[t][m[2]]]}
    [] m[1] = "ld" -> LET c == y.q[m[3]] IN {Take(Inc(u, c), t, m[2], c)}              \* x = q.load()
    [] m[1] = "ens" -> LET F[i \in 0..Len(y.s[t])] == IF i = 0 THEN <<>> ELSE F[i-1] \o DropIf(y.s[t][i])
                           G[i \in 0..Len(y.w[t])] == IF i = 0 THEN <<>> ELSE G[i-1] \o DropWIf(y.w[t][i])
                       IN {Push([u EXCEPT !.s[t] = [i \in DOMAIN @ |-> 0], !.w[t] = [i \in DOMAIN @ |-> 0], !.r[t] = 0],
                                t, F[Len(y.s[t])] \o G[Len(y.w[t])])}
    [] m[1] = "tcp" -> {[Inc(u, y.s[t][m[2]]) EXCEPT !.x[t] = y.s[t][m[2]], !.r[t] = 0]}
    [] m[1] = "tgc" -> {[Inc(u, n.g[m[2]]) EXCEPT !.x[t] = n.g[m[2]], !.r[t] = 0]}
    [] m[1] = "tmv" -> {[u EXCEPT !.x[t] = y.s[t][m[2]], !.s[t][m[2]] = 0, !.r[t] = 0]}
    [] m[1] = "mor" -> {u, [Inc(u, y.x[t]) EXCEPT !.td[t] = @ \o DropIf(y.x[t])]}
    [] m[1] = "cpx" -> {Take(Inc(u, y.x[t]), t, m[2], y.x[t])}
    [] m[1] = "tjn" -> LET c == Join(y, m[2]) IN {[Inc(u, c) EXCEPT !.x[t] = c]}
    [] m[1] = "inx" -> {Push(Inc(u, y.x[t]), t, DropIf(y.x[t]))}
    [] m[1] = "swp" -> {[u EXCEPT !.x[t] = y.q[m[2]], !.q[m[2]] = y.x[t], !.r[t] = 0]}
    [] m[1] = "tdr" -> {Push([u EXCEPT !.x[t] = 0], t, DropIf(y.x[t]))}
    [] m[1] = "tas" -> {Take([u EXCEPT !.x[t] = 0], t, m[2], y.x[t])}
    [] m[1] = "cas" -> LET c == y.q[m[2]] e == y.s[t][m[3]] IN
         IF Adr(c) = Adr(e)
         THEN {Push([u EXCEPT !.x[t] = c, !.q[m[2]] = y.x[t], !.r[t] = 100 + e], t, <<<<"tdr", 0, 0>>>>)}
         ELSE LET v == [Inc(u, c) EXCEPT !.s[t][m[3]] = c, !.r[t] = c]    \* either is let go of first
              IN {Push(v, t, DropIf(e) \o <<<<"tdr", 0, 0>>>>), Push(v, t, <<<<"tdr", 0, 0>>>> \o DropIf(e))}
    [] m[1] = "qld" -> {Push(Inc(u, y.q[m[2]]), t, DropIf(y.q[m[2]]))}
    [] m[1] = "qst" -> {Push([u EXCEPT !.q[m[2]] = 0], t, DropIf(y.q[m[2]]))}
    [] m[1] = "qcx" -> {Push(Inc(u, y.q[m[2]]), t, DropIf(y.q[m[2]]))}
    [] m[1] = "wait" -> IF \A v \in Thr \ {t} : (~y.b[v] /\ y.pc[v] = Len(n.p[v])) \/ (y.td[v] # <<>> /\ Head(y.td[v])[1] = "wait")
                        THEN {u} ELSE {}
    [] m[1] = "nest" -> {Push(u, t, <<<<"drop", m[2] + 1, 0>>>>)}
    [] m[1] = "drop" -> LET c == m[2] v == [u EXCEPT !.rs[c] = @ - 1] IN
         {IF v.rs[c] = 0 THEN Push(v, t, <<<<"dtor", c, 0>>, <<"dropw", c, 0>>>>) ELSE v}
    [] m[1] = "dropw" -> LET c == m[2] v == [u EXCEPT !.rw[c] = @ - 1] IN
         {IF v.rw[c] = 0 THEN Push(v, t, <<<<"free", c, 0>>>>) ELSE v}
    \* a bare reference count; a thread gives up only what it holds
    [] m[1] = "ci" -> IF y.own[t] = 0 THEN {[u EXCEPT !.r[t] = -1]}
                        ELSE {[u EXCEPT !.rc = @ + 1, !.own[t] = @ + 1, !.r[t] = y.rc + 1]}
    [] m[1] = "cd" -> IF y.own[t] = 0 THEN {[u EXCEPT !.r[t] = -1]}
                        ELSE {[u EXCEPT !.rc = @ - 1, !.own[t] = @ - 1, !.r[t] = y.rc - 1]}
    [] m[1] = "cz" -> IF y.rc = 0 THEN {[u EXCEPT !.r[t] = 0]}
                        ELSE {[u EXCEPT !.rc = @ + 1, !.own[t] = @ + 1, !.r[t] = y.rc + 1]}
    [] m[1] = "cc" -> {[u EXCEPT !.r[t] = y.rc]}
    [] OTHER -> {}

Observable(y, t) == y.td[t] # <<>> /\ Head(y.td[t])[1] \in {"dtor", "free"}

Moves(y, t) ==    \* <<label, next state>>
  IF ~y.b[t]
  THEN IF y.pc[t] < Len(n.p[t])
       THEN {<<<<"I", t, 0>>, [y EXCEPT !.b[t] = TRUE, !.pc[t] = @ + 1, !.r[t] = 0, !.td[t] = Expand(n.p[t][y.pc[t] + 1])]>>}
       ELSE {}
  ELSE IF y.td[t] = <<>> THEN {<<<<"R", t, y.r[t]>>, [y EXCEPT !.b[t] = FALSE, !.r[t] = 0]>>}
  ELSE LET m == Head(y.td[t]) u == [y EXCEPT !.td[t] = Tail(@)] IN
       CASE m[1] = "dtor" -> {<<<<"D", t, m[2]>>, Push([u EXCEPT !.ph[m[2]] = 2], t, Script(Kind(m[2]), m[2]))>>}
         [] m[1] = "free" -> {<<<<"F", t, m[2]>>, [u EXCEPT !.ph[m[2]] = 3]>>}
         [] OTHER -> {<<<<"", t, 0>>, v>> : v \in Step(y, t)}

Init == \E c \in 1..Len(Scn) : n = Scn[c] /\ z = Start
Next == UNCHANGED n /\ \E t \in Thr : \E m \in Moves(z, t) : z' = m[2]
Spec == Init /\ [][Next]_<<n, z>> /\ \A t \in 1..4 : WF_z(UNCHANGED n /\ t \in Thr /\ \E m \in Moves(z, t) : z' = m[2])

\* The transitions, printed with a fingerprint for each state
Enc(y) == <<TLCFP(<<n, y>>), TLCFP(<<1, n, y>>)>>
InitEmit == \E c \in 1..Len(Scn) : n = Scn[c] /\ z = Start /\ PrintT("S " \o ToString(<<c, Enc(z)>>))
NextEmit == UNCHANGED n /\ \E t \in Thr : \E m \in Moves(z, t) : z' = m[2] /\ PrintT("E " \o ToString(<<m[1], Enc(z), Enc(m[2])>>))
SpecEmit == InitEmit /\ [][NextEmit]_<<n, z>>

-----------------------------------------------------------------------------
Holding(c) == Cnt(z.s, c) + Cnt(<<z.q, n.g>>, c) + Cnt(<<z.x>>, c) + Nested(c, z.ph)
              + Cardinality({t \in Thr : z.td[t] # <<>> /\ Head(z.td[t])[1] = "nest" /\ Head(z.td[t])[2] = c - 1})
Pending(k, c) == LET F[t \in 0..Len(z.td)] == IF t = 0 THEN 0
                       ELSE F[t-1] + Cardinality({j \in 1..Len(z.td[t]) : z.td[t][j][1] = k /\ z.td[t][j][2] = c})
                 IN F[Len(z.td)]
\* counts are exact, an object with an owner is alive, destruction is due
\* exactly once when there are none, storage remains while referred to
CountsExact == \A c \in Objs : z.rs[c] = Holding(c) + Pending("drop", c)
OwnedIsAlive == \A c \in Objs : Holding(c) > 0 => z.ph[c] = 1
DestroyedOnce == \A c \in Objs : Pending("dtor", c) = (IF z.ph[c] = 1 /\ z.rs[c] = 0 THEN 1 ELSE 0)
WeakExact == \A c \in Objs : z.ph[c] \in {1, 2} =>
  z.rw[c] = Cnt(z.w, c) + Cnt(<<n.h>>, c) + Pending("dropw", c) + (IF z.rs[c] > 0 THEN 1 ELSE 0)
FreedOnce == \A c \in Objs : Pending("free", c) = (IF z.ph[c] = 2 /\ z.rw[c] = 0 THEN 1 ELSE 0)
FreedIsUnused == \A c \in Objs : z.ph[c] = 3 => z.rs[c] = 0 /\ Cnt(z.w, c) + Cnt(<<n.h>>, c) = 0
RefCount == z.rc = (LET F[t \in 0..Len(z.own)] == IF t = 0 THEN 0 ELSE F[t-1] + z.own[t] IN F[Len(z.own)])
Inv == CountsExact /\ OwnedIsAlive /\ DestroyedOnce /\ WeakExact /\ FreedOnce /\ FreedIsUnused /\ RefCount
\* destroyed and freed objects stay so
NoRevival == [][\A c \in Objs : z.ph[c] >= 2 => z'.ph[c] >= z.ph[c] /\ z'.rs[c] <= z.rs[c]]_z
Done == \A t \in Thr : ~z.b[t] /\ z.pc[t] = Len(n.p[t])
Finishes == <>[]Done
=============================================================================
