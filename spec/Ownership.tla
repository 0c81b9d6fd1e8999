------------------------------ MODULE Ownership ------------------------------
(***************************************************************************)
(* Sequential specification of xmem's shared and weak pointers.            *)
(*                                                                         *)
(* One action per public API call (constructor, assignment, swap, reset,   *)
(* destructor, lock, cast, shared_from ...).  The state is structured like *)
(* the implementation: a pointer is a pair of owner (control block) and    *)
(* stored address, a control block has two explicit counters, and a        *)
(* control block may track its pointers (registry rg/rgw, driven only by   *)
(* the notifications the pointers send).  What users rely on is stated as  *)
(* invariants over these, see the end of the module.                       *)
(*                                                                         *)
(* Destruction is a cascade: dropping the last owner destroys the object,  *)
(* which runs the object's destructor script (re-entrant code that acts on *)
(* the program's own pointers), then destroys the object's member          *)
(* pointers, then gives up the owners' common weak reference.              *)
(*                                                                         *)
(* Modelled as the code does it, although std::shared_ptr differs:         *)
(*  - adopting a null pointer creates an owner of nothing (use_count 1)    *)
(*    and its deleter is never called;                                     *)
(*  - shared_from on an unowned object yields empty instead of throwing.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  N,        \* control blocks / objects are 1..N
  SSlot,    \* sequence of names: root shared pointers
  WSlot,    \* sequence of names: root weak pointers
  USlot,    \* sequence of names: unique pointers (objects not shared yet)
  Ty,       \* [slot name -> static type]
  Ops,      \* enabled operations (set of names)
  Kinds,    \* ways of creating an object that MkC/MkA may use, subset of {0, 1, 2, 4}
  Scripts,  \* destructor scripts a new object may carry, subset of 0..6
  Classes,  \* dynamic classes of new objects, subset of {0, 1}: 0 = D, 1 = E
  Mem       \* BOOLEAN: objects have a member shared_ptr<D> and weak_ptr<D>

VARIABLE st

Range(f) == {f[i] : i \in DOMAIN f}
Ids == 1..N
MemS(c) == <<"m1","m2","m3","m4","m5","m6">>[c]
MemW(c) == <<"n1","n2","n3","n4","n5","n6">>[c]
RootS == Range(SSlot)
RootW == Range(WSlot)
RootU == Range(USlot)
MS == IF Mem THEN {MemS(c) : c \in Ids} ELSE {}
MW == IF Mem THEN {MemW(c) : c \in Ids} ELSE {}
\* a deleter may keep a shared pointer
Keeps == 4 \in Kinds
DelS(c) == <<"d1","d2","d3","d4","d5","d6">>[c]
DS == IF Keeps THEN {DelS(c) : c \in Ids} ELSE {}
AllS == RootS \cup MS \cup DS
AllW == RootW \cup MW
T(x) == IF x \in MS \cup MW \cup DS THEN "D" ELSE Ty[x]

(***************************************************************************)
(* Addresses.  0 is null.  4*c is object c; 4*c+1 the address of its       *)
(* offset base B where the static type does not say so (void); 4*c+2 a     *)
(* member of c (static type int).  Object N+1 is external, owned by no one.*)
(***************************************************************************)
ObjA(c) == 4*c
BaseA(c) == 4*c + 1
FieldA(c) == 4*c + 2
Ext == N + 1
ObjOf(p) == p \div 4
Part(p) == p % 4

\* implicit conversions D -> B, D -> const D, anything -> void (but not const)
CanConv(a, b) == \/ a = b
                 \/ a = "D" /\ b \in {"B", "K", "V"}
                 \/ a = "B" /\ b = "V"
                 \/ a = "I" /\ b = "V"
Conv(p, a, b) == IF p # 0 /\ a = "B" /\ b = "V" THEN p + 1 ELSE p
CanWConv(a, b) == CanConv(a, b)

Dead == [o |-> -1, p |-> 0]     \* not constructed
Empty == [o |-> 0, p |-> 0]
V(o, p) == [o |-> o, p |-> p]
Alive(v) == v.o # -1

Init ==
  st = [ s   |-> [x \in AllS |-> Dead],
         w   |-> [x \in AllW |-> Dead],
         u   |-> [x \in RootU |-> 0],
         k   |-> [c \in Ids |-> 0],   \* 0 unused 1 alive 2 destroyed (block remains) 3 held by a unique pointer
         ki  |-> [c \in Ids |-> 0],   \* 0 in place 1 default delete 2 custom deleter 3 owns null 4 deleter that keeps a pointer
         cl  |-> [c \in Ids |-> 0],
         sc  |-> [c \in Ids |-> 0],
         rs  |-> [c \in Ids |-> 0],
         rw  |-> [c \in Ids |-> 0],
         rg  |-> [c \in Ids |-> {}],
         rgw |-> [c \in Ids |-> {}],
         ev  |-> <<>> ]

Log(z, e) == [z EXCEPT !.ev = Append(@, e)]
FreeIds(z) == {c \in Ids : z.k[c] = 0}
HasFree(z) == FreeIds(z) # {}
NewId(z) == CHOOSE c \in FreeIds(z) : \A d \in FreeIds(z) : c <= d

-----------------------------------------------------------------------------
\* Notifications and counters (control_block_base)

IncS(z, c, src) == IF c <= 0 THEN z
                   ELSE [z EXCEPT !.rs[c] = @ + 1, !.rg[c] = @ \cup {src}]
XferS(z, c, dst, src) == IF c <= 0 THEN z
                         ELSE [z EXCEPT !.rg[c] = (@ \ {src}) \cup {dst}]
IncW(z, c, src) == IF c <= 0 THEN z
                   ELSE [z EXCEPT !.rw[c] = @ + 1, !.rgw[c] = @ \cup {src}]
XferW(z, c, dst, src) == IF c <= 0 THEN z
                         ELSE [z EXCEPT !.rgw[c] = (@ \ {src}) \cup {dst}]

FreeBlock(z, c) ==
  Log([z EXCEPT !.k[c] = 0, !.ki[c] = 0, !.cl[c] = 0, !.sc[c] = 0], <<"free", c>>)

DecWRaw(z, c) ==
  LET z1 == [z EXCEPT !.rw[c] = @ - 1] IN
  IF z1.rw[c] = 0 THEN FreeBlock(z1, c) ELSE z1

DropW(z, c, src) == IF c <= 0 THEN z
                    ELSE DecWRaw([z EXCEPT !.rgw[c] = @ \ {src}], c)

NewObj(z, c, kind, cls, scr) ==
  LET z1 == [z EXCEPT !.k[c] = 1, !.ki[c] = kind, !.cl[c] = cls, !.sc[c] = scr,
                      !.rs[c] = 0, !.rw[c] = 1] IN
  IF Mem /\ kind # 3
  THEN [z1 EXCEPT !.s[MemS(c)] = Empty, !.w[MemW(c)] = Empty]
  ELSE z1

RECURSIVE DropS(_, _, _), RunScript(_, _), Assign(_, _, _)

\* The memory of a new control block is obtained.
Obtain(z, c) == Log(z, <<"alo", c>>)

\* An owner registered under src is given up.
DropS(z, c, src) ==
  IF c <= 0 THEN z
  ELSE LET z1 == [z EXCEPT !.rs[c] = @ - 1, !.rg[c] = @ \ {src}] IN
       IF z1.rs[c] > 0 THEN z1
       ELSE \* the resource is destroyed; src plays no part any more
         LET z2 == [z1 EXCEPT !.k[c] = 2]
             z3 == IF z.ki[c] = 3 THEN z2
                   ELSE LET a == IF z.ki[c] \in {2, 4} THEN Log(z2, <<"del", c>>) ELSE z2
                            b == RunScript(Log(a, <<"dtor", c>>), c)
                        IN IF ~Mem THEN b
                           ELSE \* members die in reverse order of declaration
                             LET wm == b.w[MemW(c)]
                                 b1 == DropW([b EXCEPT !.w[MemW(c)] = Dead], wm.o, MemW(c))
                                 sm == b1.s[MemS(c)]
                             IN DropS([b1 EXCEPT !.s[MemS(c)] = Dead], sm.o, MemS(c))
             \* then the deleter goes, with what it keeps
             z4 == IF ~Keeps \/ ~Alive(z3.s[DelS(c)]) THEN z3
                   ELSE LET kp == z3.s[DelS(c)] IN DropS([z3 EXCEPT !.s[DelS(c)] = Dead], kp.o, DelS(c))
         IN DecWRaw(z4, c)

\* The deleter of new object c keeps a copy of the first pointer.
Kept(z) == IF Alive(z.s[SSlot[1]]) /\ Ty[SSlot[1]] = "D" THEN z.s[SSlot[1]] ELSE Empty
Keep(z, c) == LET v == Kept(z) IN [IncS(z, v.o, DelS(c)) EXCEPT !.s[DelS(c)] = v]

\* Value val, whose owner is registered under "t", becomes the value of slot x.
Assign(z, x, val) ==
  LET old == z.s[x]
      z1 == IF old.o = val.o THEN z ELSE XferS(XferS(z, old.o, "t", x), val.o, x, "t")
  IN DropS([z1 EXCEPT !.s[x] = val], old.o, "t")

AssignW(z, x, val) ==
  LET old == z.w[x]
      z1 == IF old.o = val.o THEN z ELSE XferW(XferW(z, old.o, "t", x), val.o, x, "t")
  IN DropW([z1 EXCEPT !.w[x] = val], old.o, "t")

\* shared_from / lock: join only while there are owners
LockVal(z, v) == IF v.o > 0 /\ z.rs[v.o] > 0 THEN v ELSE Empty

SX == SSlot[1]
SY == SSlot[2]
WX == WSlot[1]
RunScript(z, c) ==
  CASE z.sc[c] = 0 -> z
    [] z.sc[c] = 1 /\ Alive(z.s[SX]) -> Assign(z, SX, Empty)                       \* SX.reset()
    [] z.sc[c] = 2 /\ Alive(z.s[SX]) /\ Alive(z.s[SY]) ->                          \* SX = SY
         Assign(IncS(z, z.s[SY].o, "t"), SX, z.s[SY])
    [] z.sc[c] = 3 -> \* shared_from(this): must be empty and change nothing
         Log(z, <<"sft", 0>>)
    [] z.sc[c] = 4 /\ Len(WSlot) > 0 /\ Alive(z.w[WX]) ->                          \* WX = weak_from(this)
         IF z.rw[c] > 0 THEN AssignW(IncW(z, c, "t"), WX, V(c, ObjA(c)))
         ELSE AssignW(z, WX, Empty)                 \* was never shared
    [] z.sc[c] = 5 /\ Len(WSlot) > 0 /\ Alive(z.w[WX]) ->                          \* WX.lock() and drop
         LET v == LockVal(z, z.w[WX])
             z1 == Log(IncS(z, v.o, "t"), <<"lck", v.p>>)
         IN DropS(z1, v.o, "t")
    [] z.sc[c] = 6 /\ Alive(z.s[SX]) /\ HasFree(z) ->                              \* SX = make_shared
         LET n == NewId(z) IN
         Assign(IncS(NewObj(Obtain(Log(z, <<"mk", n>>), n), n, 0, 0, 0), n, "t"), SX, V(n, ObjA(n)))
    [] OTHER -> z

-----------------------------------------------------------------------------
\* Which operations apply.  An operation is [f, x, y, a, b, n]: its name, the
\* pointer acted on, the other pointer, two numeric arguments, the id of the
\* object created (0 if none).

Op(f, x, y, a, b, n) == [f |-> f, x |-> x, y |-> y, a |-> a, b |-> b, n |-> n]
DeadS(z) == {x \in RootS : ~Alive(z.s[x])}
LiveS(z) == {x \in AllS : Alive(z.s[x])}
DeadW(z) == {x \in RootW : ~Alive(z.w[x])}
LiveW(z) == {x \in AllW : Alive(z.w[x])}
LiveObj(z) == {c \in Ids : z.k[c] = 1 /\ z.ki[c] # 3}

\* static type of an object of class cl is D, or B for class E
Holds(t, cl) == IF cl = 0 THEN t \in {"D", "B", "K", "V"} ELSE t = "B"
MkAddr(t, c) == ObjA(c)

\* addresses an alias of static type t with owner o may be given
AliasAddrs(z, t, o) ==
  LET objs == ({Ext} \cup IF o > 0 /\ z.k[o] = 1 /\ z.ki[o] # 3 THEN {o} ELSE {}) IN
  {0} \cup (IF t \in {"D", "B", "K", "V"}
            THEN {ObjA(c) : c \in {d \in objs : d = Ext \/ z.cl[d] = 0}} ELSE {})
      \cup (IF t = "I" THEN {FieldA(c) : c \in objs} ELSE {})

\* casts: 1 static 2 const 3 reinterpret 4 dynamic.  The address cast and
\* whether the cast is meaningful for that value.
CastOK(z, kind, a, b, v) ==
  LET p == v.p
      isD == p = 0 \/ ObjOf(p) = Ext \/ (z.k[ObjOf(p)] = 1 /\ z.cl[ObjOf(p)] = 0)
      isLive == p = 0 \/ ObjOf(p) = Ext \/ z.k[ObjOf(p)] = 1
  IN /\ v.o > 0 \/ p = 0
     /\ CASE kind = 1 -> \/ a = b
                         \/ (a = "D" /\ b \in {"B", "V"})
                         \/ (a = "B" /\ b = "V")
                         \/ (a = "B" /\ b = "D" /\ isD)
                         \/ (a = "V" /\ b = "D" /\ (p = 0 \/ Part(p) = 0) /\ isD)
                         \/ (a = "V" /\ b = "B" /\ (p = 0 \/ Part(p) = 1))
          [] kind = 2 -> (a = "K" /\ b = "D") \/ (a = "D" /\ b = "K") \/ a = b
          [] kind = 3 -> \/ (a = "V" /\ b = "D" /\ (p = 0 \/ Part(p) = 0) /\ isD)
                         \/ (a = "V" /\ b = "B" /\ (p = 0 \/ Part(p) = 1))
          [] kind = 4 -> /\ isLive
                         /\ <<a, b>> \in {<<"B", "D">>, <<"D", "B">>, <<"D", "D">>, <<"B", "V">>, <<"D", "V">>, <<"K", "K">>, <<"D", "K">>}
CastAddr(z, kind, a, b, p) ==
  CASE kind = 4 /\ a = "B" /\ b = "D" ->
         IF p # 0 /\ ObjOf(p) # Ext /\ z.cl[ObjOf(p)] = 1 THEN 0 ELSE p
    [] kind # 4 /\ a = "B" /\ b = "V" -> Conv(p, a, b)   \* dynamic: the whole object, whichever part p is
    [] a = "V" /\ b = "B" -> IF p = 0 THEN 0 ELSE p - 1
    [] OTHER -> p
\* the library's make_aliased: nothing if the source owns nothing
CastVal(z, kind, a, b, v) ==
  LET q == CastAddr(z, kind, a, b, v.p) IN
  IF v.o <= 0 \/ (kind = 4 /\ q = 0) THEN Empty ELSE V(v.o, q)

\* A source slot that lives inside an object can be named only while that
\* object is alive, and code reaches it through a pointer to the object.
Reach(z, y) == y \in RootS \/ \E c \in Ids : y = MemS(c) /\ z.k[c] = 1
ReachW(z, y) == y \in RootW \/ \E c \in Ids : y = MemW(c) /\ z.k[c] = 1
SrcS(z) == {y \in LiveS(z) : Reach(z, y)}
SrcW(z) == {y \in LiveW(z) : ReachW(z, y)}

Make(z) == IF HasFree(z) THEN {<<kind, cls, scr>> \in Kinds \X Classes \X Scripts : cls = 0 \/ scr = 0} ELSE {}
Code(m) == m[1] + 10 * m[2] + 100 * m[3]
RawKinds == {1, 2} \cup (Kinds \cap {4})
NId(z) == IF HasFree(z) THEN NewId(z) ELSE 0

\* objects that can be copied from and assigned to, shared or not
Plain(z) == {c \in Ids : z.k[c] = 3 \/ (z.k[c] = 1 /\ z.ki[c] # 3 /\ z.cl[c] = 0)}

EnabledIn(z, ops) ==
  LET D == DeadS(z) L == SrcS(z) DW == DeadW(z) LW == SrcW(z) Obj == LiveObj(z) n == NId(z) IN
  UNION {
   \* ---- construction of shared pointers
   IF "Def" \in ops  THEN {Op("Def", x, "", 0, 0, 0) : x \in D} ELSE {},
   IF "CpyC" \in ops THEN {Op("CpyC", x, y, 0, 0, 0) : <<x, y>> \in {q \in D \X L : CanConv(T(q[2]), T(q[1]))}} ELSE {},
   IF "MovC" \in ops THEN {Op("MovC", x, y, 0, 0, 0) : <<x, y>> \in {q \in D \X L : CanConv(T(q[2]), T(q[1]))}} ELSE {},
   IF "AliC" \in ops THEN UNION {{Op("AliC", x, y, a, 0, 0) : a \in AliasAddrs(z, T(x), z.s[y].o)} : <<x, y>> \in D \X L} ELSE {},
   IF "MkaC" \in ops THEN UNION {{Op("MkaC", x, y, a, 0, 0) : a \in AliasAddrs(z, T(x), z.s[y].o)} : <<x, y>> \in D \X L} ELSE {},
   IF "MkC" \in ops  THEN {Op("MkC", q[1], "", Code(q[2]), 0, n) : q \in {r \in D \X Make(z) : Holds(T(r[1]), r[2][2])}} ELSE {},
   IF "NulC" \in ops /\ n > 0 THEN {Op("NulC", x, "", a, 0, n) : <<x, a>> \in {d \in D : T(d) \in {"D", "B", "K"}} \X {0, IF Keeps THEN 4 ELSE 0}} ELSE {},
   IF "UnqC" \in ops THEN {Op("UnqC", q[1], q[2], 0, 0, IF z.u[q[2]] = 0 THEN n ELSE z.u[q[2]]) :
                        q \in {r \in D \X RootU : T(r[1]) \in {"D", "B", "K", "V"} /\ (z.u[r[2]] # 0 \/ n > 0)}} ELSE {},
   IF "LokC" \in ops THEN {Op("LokC", x, y, 0, 0, 0) : <<x, y>> \in {q \in D \X LW : T(q[2]) = T(q[1])}} ELSE {},
   IF "SfrC" \in ops THEN {Op("SfrC", q[1], "", q[2], 0, 0) : q \in {r \in D \X ({0} \cup {c \in Obj : z.cl[c] = 0}) : T(r[1]) # "B"}} ELSE {},
   IF "SfrU" \in ops THEN {Op("SfrU", q[1], q[2], 0, 0, 0) : q \in {r \in D \X RootU : T(r[1]) # "B" /\ z.u[r[2]] # 0}} ELSE {},
   IF "CasC" \in ops THEN UNION {{Op("CasC", x, y, k, 0, 0) : k \in {j \in 1..4 : CastOK(z, j, T(y), T(x), z.s[y])}} : <<x, y>> \in D \X L} ELSE {},
   \* ---- assignment and other modification
   IF "CpyA" \in ops THEN {Op("CpyA", x, y, 0, 0, 0) : <<x, y>> \in {q \in L \X L : CanConv(T(q[2]), T(q[1]))}} ELSE {},
   IF "MovA" \in ops THEN {Op("MovA", x, y, 0, 0, 0) : <<x, y>> \in {q \in L \X L : CanConv(T(q[2]), T(q[1]))}} ELSE {},
   IF "AliA" \in ops THEN UNION {{Op("AliA", x, y, a, 0, 0) : a \in AliasAddrs(z, T(x), z.s[y].o)} : <<x, y>> \in L \X L} ELSE {},
   IF "MkA" \in ops  THEN {Op("MkA", q[1], "", Code(q[2]), 0, n) : q \in {r \in L \X Make(z) : Holds(T(r[1]), r[2][2])}} ELSE {},
   IF "UnqA" \in ops THEN {Op("UnqA", q[1], q[2], 0, 0, IF z.u[q[2]] = 0 THEN n ELSE z.u[q[2]]) :
                        q \in {r \in L \X RootU : T(r[1]) \in {"D", "B", "K", "V"} /\ (z.u[r[2]] # 0 \/ n > 0)}} ELSE {},
   IF "LokA" \in ops THEN {Op("LokA", x, y, 0, 0, 0) : <<x, y>> \in {q \in L \X LW : T(q[2]) = T(q[1])}} ELSE {},
   IF "SfrA" \in ops THEN {Op("SfrA", q[1], "", q[2], 0, 0) : q \in {r \in L \X ({0} \cup {c \in Obj : z.cl[c] = 0}) : T(r[1]) # "B"}} ELSE {},
   IF "CasA" \in ops THEN UNION {{Op("CasA", x, y, k, 0, 0) : k \in {j \in 1..4 : CastOK(z, j, T(y), T(x), z.s[y])}} : <<x, y>> \in L \X L} ELSE {},
   IF "Rst" \in ops  THEN {Op("Rst", x, "", 0, 0, 0) : x \in L} ELSE {},
   IF "Swp" \in ops  THEN {Op("Swp", x, y, 0, 0, 0) : <<x, y>> \in {q \in L \X L : T(q[2]) = T(q[1])}} ELSE {},
   IF "Des" \in ops  THEN {Op("Des", x, "", 0, 0, 0) : x \in L \cap RootS} ELSE {},
   IF "Bulk" \in ops THEN {Op("Bulk", x, "", a, 0, 0) : <<x, a>> \in {y \in L : z.s[y].o > 0} \X {300}} ELSE {},
   \* ---- weak pointers
   IF "wDef" \in ops  THEN {Op("wDef", x, "", 0, 0, 0) : x \in DW} ELSE {},
   IF "wCpyC" \in ops THEN {Op("wCpyC", x, y, 0, 0, 0) : <<x, y>> \in {q \in DW \X LW : CanWConv(T(q[2]), T(q[1]))}} ELSE {},
   IF "wMovC" \in ops THEN {Op("wMovC", x, y, 0, 0, 0) : <<x, y>> \in {q \in DW \X LW : CanWConv(T(q[2]), T(q[1]))}} ELSE {},
   IF "wFroC" \in ops THEN {Op("wFroC", x, y, 0, 0, 0) : <<x, y>> \in {q \in DW \X L : CanWConv(T(q[2]), T(q[1]))}} ELSE {},
   IF "wAliC" \in ops THEN UNION {{Op("wAliC", x, y, a, 0, 0) : a \in AliasAddrs(z, T(x), z.w[y].o)} : <<x, y>> \in DW \X LW} ELSE {},
   IF "wAlsC" \in ops THEN UNION {{Op("wAlsC", x, y, a, 0, 0) : a \in AliasAddrs(z, T(x), z.s[y].o)} : <<x, y>> \in DW \X L} ELSE {},
   IF "wSfrC" \in ops THEN {Op("wSfrC", q[1], "", q[2], 0, 0) : q \in {r \in DW \X ({0} \cup {c \in Obj : z.cl[c] = 0}) : T(r[1]) # "B"}} ELSE {},
   IF "wCpyA" \in ops THEN {Op("wCpyA", x, y, 0, 0, 0) : <<x, y>> \in {q \in LW \X LW : CanWConv(T(q[2]), T(q[1]))}} ELSE {},
   IF "wMovA" \in ops THEN {Op("wMovA", x, y, 0, 0, 0) : <<x, y>> \in {q \in LW \X LW : CanWConv(T(q[2]), T(q[1]))}} ELSE {},
   IF "wFroA" \in ops THEN {Op("wFroA", x, y, 0, 0, 0) : <<x, y>> \in {q \in LW \X L : CanWConv(T(q[2]), T(q[1]))}} ELSE {},
   IF "wRst" \in ops  THEN {Op("wRst", x, "", 0, 0, 0) : x \in LW} ELSE {},
   IF "wSwp" \in ops  THEN {Op("wSwp", x, y, 0, 0, 0) : <<x, y>> \in {q \in LW \X LW : T(q[2]) = T(q[1])}} ELSE {},
   IF "wDes" \in ops  THEN {Op("wDes", x, "", 0, 0, 0) : x \in LW \cap RootW} ELSE {},
   IF "wBulk" \in ops THEN {Op("wBulk", x, "", a, 0, 0) : <<x, a>> \in {y \in LW : z.w[y].o > 0} \X {300}} ELSE {},
   \* ---- objects held by unique pointers; copying objects
   IF "uMk" \in ops  THEN {Op("uMk", q[1], "", 100 * q[2], 0, n) : q \in {r \in RootU \X Scripts : z.u[r[1]] = 0 /\ n > 0}} ELSE {},
   IF "uRst" \in ops THEN {Op("uRst", x, "", 0, 0, 0) : x \in {y \in RootU : z.u[y] # 0}} ELSE {},
   IF "OCpy" \in ops THEN {Op("OCpy", "", "", a, b, 0) : <<a, b>> \in Plain(z) \X Plain(z)} ELSE {},
   \* ---- injected failures: a = 0 allocation of the control block, 1 constructor
   IF "fMkC" \in ops  THEN {Op("fMkC", x, "", a, 0, 0) : <<x, a>> \in {d \in D : T(d) \in {"D", "B", "K", "V"}} \X {0, 1}} ELSE {},
   IF "fRawC" \in ops /\ n > 0 THEN {Op("fRawC", x, "", a, 0, n) : <<x, a>> \in {d \in D : T(d) \in {"D", "B", "K", "V"}} \X RawKinds} ELSE {},
   IF "fUnqC" \in ops THEN {Op("fUnqC", x, y, 0, 0, 0) : <<x, y>> \in {q \in D \X RootU : T(q[1]) \in {"D", "B", "K", "V"} /\ z.u[q[2]] # 0}} ELSE {},
   IF "fMkA" \in ops  THEN {Op("fMkA", x, "", a, 0, 0) : <<x, a>> \in {d \in L : T(d) \in {"D", "B", "K", "V"}} \X {0, 1}} ELSE {},
   IF "fRawA" \in ops /\ n > 0 THEN {Op("fRawA", x, "", a, 0, n) : <<x, a>> \in {d \in L : T(d) \in {"D", "B", "K", "V"}} \X RawKinds} ELSE {},
   IF "fUnqA" \in ops THEN {Op("fUnqA", x, y, 0, 0, 0) : <<x, y>> \in {q \in L \X RootU : T(q[1]) \in {"D", "B", "K", "V"} /\ z.u[q[2]] # 0}} ELSE {}
  }
Enabled(z) == EnabledIn(z, Ops)

-----------------------------------------------------------------------------
\* Effects.

Decode(a) == <<a % 10, (a \div 10) % 10, a \div 100>>

\* The value an expression yields, its owner registered under name t.
\* Returns <<state, value>>.
Eval(z, f, x, y, a, n, t) ==
  CASE f = "Cpy" -> LET v == V(z.s[y].o, Conv(z.s[y].p, T(y), T(x))) IN <<IncS(z, v.o, t), v>>
    [] f = "Mov" -> LET v == V(z.s[y].o, Conv(z.s[y].p, T(y), T(x))) IN
                    <<[XferS(z, v.o, t, y) EXCEPT !.s[y] = Empty], v>>
    [] f = "Ali" -> LET v == V(z.s[y].o, a) IN <<IncS(z, v.o, t), v>>
    [] f = "Mka" -> LET v == IF z.s[y].o > 0 THEN V(z.s[y].o, a) ELSE Empty IN <<IncS(z, v.o, t), v>>
    [] f = "Mk"  -> LET m == Decode(a)
                        \* a new object converted to void from D keeps address of D
                        z1 == NewObj(Obtain(z, n), n, m[1], m[2], m[3])
                    IN <<IncS(IF m[1] = 4 THEN Keep(z1, n) ELSE z1, n, t), V(n, ObjA(n))>>
    [] f = "Nul" -> LET z1 == NewObj(Obtain(z, n), n, 3, 0, 0)
                    IN <<IncS(IF a = 4 THEN Keep(z1, n) ELSE z1, n, t), V(n, 0)>>
    [] f = "Unq" -> IF z.u[y] = 0 THEN <<IncS(NewObj(Obtain(z, n), n, 3, 0, 0), n, t), V(n, 0)>>
                    ELSE \* the object exists already; it now gets a control block
                      LET z1 == [Obtain(z, n) EXCEPT !.u[y] = 0, !.k[n] = 1, !.ki[n] = 2, !.rs[n] = 0, !.rw[n] = 1]
                      IN <<IncS(z1, n, t), V(n, ObjA(n))>>
    [] f = "Lok" -> LET v == LockVal(z, z.w[y]) IN <<IncS(z, v.o, t), v>>
    [] f = "Sfr" -> LET v == IF a = 0 THEN Empty
                             ELSE LockVal(z, V(a, IF T(x) = "I" THEN FieldA(a) ELSE ObjA(a)))
                    IN <<IncS(z, v.o, t), v>>
    [] f = "Cas" -> LET v == CastVal(z, a, T(y), T(x), z.s[y]) IN <<IncS(z, v.o, t), v>>

\* construction: x is dead
Construct(z, f, op) == LET r == Eval(z, f, op.x, op.y, op.a, op.n, op.x) IN [r[1] EXCEPT !.s[op.x] = r[2]]
AssignFrom(z, f, op) == LET r == Eval(z, f, op.x, op.y, op.a, op.n, "t") IN Assign(r[1], op.x, r[2])

EvalW(z, f, x, y, a, t) ==
  CASE f = "Cpy" -> LET v == V(z.w[y].o, Conv(z.w[y].p, T(y), T(x))) IN <<IncW(z, v.o, t), v>>
    [] f = "Mov" -> LET v == V(z.w[y].o, Conv(z.w[y].p, T(y), T(x))) IN
                    <<[XferW(z, v.o, t, y) EXCEPT !.w[y] = Empty], v>>
    [] f = "Fro" -> LET v == V(z.s[y].o, Conv(z.s[y].p, T(y), T(x))) IN <<IncW(z, v.o, t), v>>
    [] f = "Ali" -> LET v == IF z.w[y].o > 0 THEN V(z.w[y].o, a) ELSE Empty IN <<IncW(z, v.o, t), v>>
    [] f = "Als" -> LET v == IF z.s[y].o > 0 THEN V(z.s[y].o, a) ELSE Empty IN <<IncW(z, v.o, t), v>>
    [] f = "Sfr" -> LET v == IF a = 0 THEN Empty ELSE V(a, IF T(x) = "I" THEN FieldA(a) ELSE ObjA(a))
                    IN <<IncW(z, v.o, t), v>>
ConstructW(z, f, op) == LET r == EvalW(z, f, op.x, op.y, op.a, op.x) IN [r[1] EXCEPT !.w[op.x] = r[2]]
AssignFromW(z, f, op) == LET r == EvalW(z, f, op.x, op.y, op.a, "t") IN AssignW(r[1], op.x, r[2])

\* an object never shared is deleted: no control block to free
Delete(z, c) ==
  LET z1 == RunScript(Log([z EXCEPT !.k[c] = 2], <<"dtor", c>>), c)
      z2 == IF ~Mem THEN z1
            ELSE LET wm == z1.w[MemW(c)]
                     b1 == DropW([z1 EXCEPT !.w[MemW(c)] = Dead], wm.o, MemW(c))
                     sm == b1.s[MemS(c)]
                 IN DropS([b1 EXCEPT !.s[MemS(c)] = Dead], sm.o, MemS(c))
  IN [z2 EXCEPT !.k[c] = 0, !.ki[c] = 0, !.cl[c] = 0, !.sc[c] = 0]

DoOp(z, op) ==
  LET f == op.f x == op.x y == op.y IN
  CASE f = "Def"  -> [z EXCEPT !.s[x] = Empty]
    [] f = "CpyC" -> Construct(z, "Cpy", op)
    [] f = "MovC" -> Construct(z, "Mov", op)
    [] f = "AliC" -> Construct(z, "Ali", op)
    [] f = "MkaC" -> Construct(z, "Mka", op)
    [] f = "MkC"  -> Construct(z, "Mk", op)
    [] f = "NulC" -> Construct(z, "Nul", op)
    [] f = "UnqC" -> Construct(z, "Unq", op)
    [] f = "LokC" -> Construct(z, "Lok", op)
    [] f = "SfrC" -> Construct(z, "Sfr", op)
    [] f = "SfrU" -> [z EXCEPT !.s[x] = Empty]
    [] f = "CasC" -> Construct(z, "Cas", op)
    [] f = "CpyA" -> IF x = y THEN z ELSE AssignFrom(z, "Cpy", op)
    [] f = "MovA" -> IF x = y THEN z ELSE AssignFrom(z, "Mov", op)
    [] f = "AliA" -> AssignFrom(z, "Ali", op)
    [] f = "MkA"  -> AssignFrom(z, "Mk", op)
    [] f = "UnqA" -> AssignFrom(z, "Unq", op)
    [] f = "LokA" -> AssignFrom(z, "Lok", op)
    [] f = "SfrA" -> AssignFrom(z, "Sfr", op)
    [] f = "CasA" -> AssignFrom(z, "Cas", op)
    [] f = "Rst"  -> Assign(z, x, Empty)
    [] f = "Swp"  -> LET a == z.s[x] b == z.s[y]
                         z1 == IF a.o = b.o THEN z ELSE XferS(XferS(z, a.o, y, x), b.o, x, y)
                     IN [z1 EXCEPT !.s = [@ EXCEPT ![x] = b, ![y] = a]]
    [] f = "Des"  -> DropS([z EXCEPT !.s[x] = Dead], z.s[x].o, x)
    [] f = "Bulk" -> z
    [] f = "wDef"  -> [z EXCEPT !.w[x] = Empty]
    [] f = "wCpyC" -> ConstructW(z, "Cpy", op)
    [] f = "wMovC" -> ConstructW(z, "Mov", op)
    [] f = "wFroC" -> ConstructW(z, "Fro", op)
    [] f = "wAliC" -> ConstructW(z, "Ali", op)
    [] f = "wAlsC" -> ConstructW(z, "Als", op)
    [] f = "wSfrC" -> ConstructW(z, "Sfr", op)
    [] f = "wCpyA" -> IF x = y THEN z ELSE AssignFromW(z, "Cpy", op)
    [] f = "wMovA" -> IF x = y THEN z ELSE AssignFromW(z, "Mov", op)
    [] f = "wFroA" -> AssignFromW(z, "Fro", op)
    [] f = "wRst"  -> AssignW(z, x, Empty)
    [] f = "wSwp"  -> LET a == z.w[x] b == z.w[y]
                          z1 == IF a.o = b.o THEN z ELSE XferW(XferW(z, a.o, y, x), b.o, x, y)
                      IN [z1 EXCEPT !.w = [@ EXCEPT ![x] = b, ![y] = a]]
    [] f = "wDes"  -> DropW([z EXCEPT !.w[x] = Dead], z.w[x].o, x)
    [] f = "wBulk" -> z
    [] f = "uMk"   -> LET z1 == NewObj(z, op.n, 2, 0, op.a \div 100) IN
                      [z1 EXCEPT !.k[op.n] = 3, !.rw[op.n] = 0, !.u[x] = op.n]
    [] f = "uRst"  -> Delete(Log([z EXCEPT !.u[x] = 0], <<"del", z.u[x]>>), z.u[x])
    [] f = "OCpy"  -> z
    [] f \in {"fMkC", "fMkA"} -> Log(IF op.a = 1 THEN Obtain(z, 0) ELSE z, <<"exc", 0>>)
    [] f \in {"fUnqC", "fUnqA"} -> Log(z, <<"exc", 0>>)
    [] f \in {"fRawC", "fRawA"} ->  \* the raw object existed before the call
         LET z1 == IF op.a # 1 THEN Log(z, <<"del", op.n>>) ELSE z IN
         Log(Log(z1, <<"dtor", op.n>>), <<"exc", 0>>)

\* one call: the result, and separately what happened during it
Do(z, op) == DoOp([z EXCEPT !.ev = <<>>], op)
Quiet(z) == [z EXCEPT !.ev = <<>>]

-----------------------------------------------------------------------------
\* Flat encoding of states and operations for the replayer.
SeqOf(names, F(_)) == [i \in 1..Len(names) |-> F(names[i])]
MemSNames == IF Mem THEN [c \in Ids |-> MemS(c)] ELSE <<>>
MemWNames == IF Mem THEN [c \in Ids |-> MemW(c)] ELSE <<>>
SNames == SSlot \o MemSNames \o (IF Keeps THEN [c \in Ids |-> DelS(c)] ELSE <<>>)
WNames == WSlot \o MemWNames
Flat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i-1] \o ss[i] IN F[Len(ss)]
Enc(z) == Flat(SeqOf(SNames, LAMBDA x : <<z.s[x].o, z.s[x].p>>))
       \o Flat(SeqOf(WNames, LAMBDA x : <<z.w[x].o, z.w[x].p>>))
       \o SeqOf(USlot, LAMBDA x : z.u[x])
       \o Flat([c \in Ids |-> <<z.k[c], z.ki[c], z.cl[c], z.sc[c], z.rs[c], z.rw[c]>>])

B2I(b) == IF b THEN 1 ELSE 0
\* Operations that obtain memory, and so may fail; no other may.
MayFail == {"MkC", "NulC", "UnqC", "MkA", "UnqA", "uMk",
            "fMkC", "fRawC", "fUnqC", "fMkA", "fRawA", "fUnqA"}
Obtains(ev) == {i \in DOMAIN ev : ev[i][1] = "alo"}
\* C20: memory is obtained by creation only, one block for each pointer created
\* (and by destructors, if their scripts create)
OneBlock(z, op, r) ==
  LET made == Cardinality({i \in DOMAIN r.ev : r.ev[i][1] = "mk"})
      own == Cardinality(Obtains(r.ev)) - made
  IN /\ own \in {0, 1}
     /\ op.f \notin MayFail => own = 0
     /\ op.f \in {"MkC", "NulC", "UnqC", "MkA", "UnqA"} => own = 1
Header == PrintT("H " \o ToString(<<[i \in 1..Len(SSlot) |-> <<SSlot[i], Ty[SSlot[i]]>>],
                                    [i \in 1..Len(WSlot) |-> <<WSlot[i], Ty[WSlot[i]]>>],
                                    [i \in 1..Len(USlot) |-> <<USlot[i], "U">>], N, B2I(Mem), B2I(Keeps)>>))

Emit(z, op, r) ==
  PrintT("T " \o ToString(<<Enc(z), <<op.f, op.x, op.y, op.a, op.b, op.n>>, r.ev, Enc(r)>>))

Next == \E op \in Enabled(st) : st' = Quiet(Do(st, op))
NextEmit == \E op \in Enabled(st) :
              LET r == Do(st, op) IN
              /\ st' = Quiet(r) /\ Emit(st, op, r)
              /\ Assert(OneBlock(st, op, r), <<"OneBlock", op, r.ev>>)

\* one operation picked at random, for long walks (TLC's simulation mode)
NextWalk == \E f \in {RandomElement(IF st.ev = <<>> THEN Ops ELSE {})} :   \* not a constant
              LET E == EnabledIn(st, {f}) IN
              IF E = {} THEN UNCHANGED st
              ELSE \E op \in {RandomElement(E)} :
                     LET r == Do(st, op) IN st' = Quiet(r) /\ Emit(st, op, r)

Spec == Init /\ [][Next]_st
SpecWalk == Init /\ Header /\ [][NextWalk]_st
SpecEmit == Init /\ Header /\ [][NextEmit]_st

-----------------------------------------------------------------------------
(***************************************************************************)
(* What users rely on.                                                     *)
(***************************************************************************)
Owners(z, c) == {x \in AllS : z.s[x].o = c}
Observers(z, c) == {x \in AllW : z.w[x].o = c}
Shared(z, c) == z.k[c] \in {1, 2}

\* C01: alive exactly while owned
AliveIffOwned == \A c \in Ids : (st.k[c] = 1) <=> (Owners(st, c) # {})
\* C02: the count in the block is the number of owners
CountExact == \A c \in Ids : st.rs[c] = Cardinality(Owners(st, c))
\* C05: the block remains exactly while something refers to it
BlockIffReferred == \A c \in Ids : Shared(st, c) <=> (Owners(st, c) \cup Observers(st, c) # {})
WeakExact == \A c \in Ids : Shared(st, c) =>
               st.rw[c] = Cardinality(Observers(st, c)) + (IF st.k[c] = 1 THEN 1 ELSE 0)
\* C13: a tracking block knows exactly its pointers
Tracked == \A c \in Ids : st.rg[c] = Owners(st, c) /\ st.rgw[c] = Observers(st, c)
\* pointers never store the address of an object that is gone while they own it
NoDangling == \A x \in AllS : LET v == st.s[x] IN
                v.o > 0 /\ v.p # 0 /\ ObjOf(v.p) = v.o => st.k[v.o] = 1
\* objects held by a unique pointer are held by exactly one and not shared
UniqueHeld == \A c \in Ids : (st.k[c] = 3) <=> (Cardinality({x \in RootU : st.u[x] = c}) = 1)
MembersOfLive == \A c \in Ids : Mem => ((st.k[c] \in {1, 3} /\ st.ki[c] # 3) <=> Alive(st.s[MemS(c)]))
\* C21: a deleter lives while its object does
DeleterOfLive == \A c \in Ids : Keeps => (Alive(st.s[DelS(c)]) => st.k[c] = 1) /\ (st.k[c] = 1 /\ st.ki[c] = 4 => Alive(st.s[DelS(c)]))
\* C04, C07: never revived; an unreferred destroyed object stays destroyed
NoRevival == [][\A c \in Ids : st.k[c] = 2 /\ st'.k[c] = 1 => FALSE]_st

Inv == /\ AliveIffOwned /\ CountExact /\ BlockIffReferred /\ WeakExact
       /\ Tracked /\ NoDangling /\ UniqueHeld /\ MembersOfLive /\ DeleterOfLive
=============================================================================
