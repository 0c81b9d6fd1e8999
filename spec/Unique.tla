------------------------------- MODULE Unique -------------------------------
(* Unique pointers: who holds which object, with which deleter, and when it  *)
(* is deleted. One instance per kind of deleter; pointers are numbered.      *)
(*                                                                           *)
(* A deleter is a number: 0 made by default, 1.. given by the user, -1 not   *)
(* known (a deleter that was moved from; nothing may rely on it).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NPtr,      \* pointers 1..NPtr
          NObj,      \* objects alive at the same time
          Kind,      \* [1..NPtr -> "T" | "B" | "L"]: static types (see Conv)
          ConvC,     \* pairs of kinds <<from, to>> that convert by construction
          ConvA,     \* .. and by assignment
          Given,     \* [1..NPtr -> deleters that can be given to it]
          Default,   \* [1..NPtr -> the deleter it has by default, -9: none]
          Hollow,    \* moving leaves the source's deleter unknown
          Watch,     \* deleter calls can be observed
          Scripts    \* pointers that an object's destructor may reset (0: none)

Ptrs == 1..NPtr
Objs == 1..NObj
Ptr(o, d) == [live |-> TRUE, o |-> o, d |-> d]
Gone == [live |-> FALSE, o |-> 0, d |-> 0]
\* k: "no", "held", "raw" (owned by nobody: given away by release); s: script
Start == [p |-> [i \in Ptrs |-> Gone], o |-> [i \in Objs |-> [k |-> "no", s |-> 0]], ev |-> << >>, busy |-> 0, bad |-> FALSE]

Free(z) == {o \in Objs : z.o[o].k = "no"}
New(z) == CHOOSE o \in Free(z) : \A q \in Free(z) : o <= q
Emit(z, e) == [z EXCEPT !.ev = Append(@, e)]
Set(z, x, o, d) == [z EXCEPT !.p[x] = Ptr(o, d)]

(* Object o is deleted by deleter d; its destructor may reset a pointer.     *)
(* The pointer an operation is working on (busy) must not be touched.        *)
RECURSIVE Delete(_, _, _)
Delete(z, d, o) ==
  IF o = 0 THEN z ELSE
  LET z1 == IF Watch THEN Emit(z, <<"del", d, o>>) ELSE z
      s  == z.o[o].s
      z2 == Emit([z1 EXCEPT !.o[o] = [k |-> "no", s |-> 0]], <<"dtor", o>>)
  IN IF s = 0 \/ ~z2.p[s].live THEN z2
     ELSE IF s = z2.busy THEN [z2 EXCEPT !.bad = TRUE]
     ELSE Delete([z2 EXCEPT !.p[s].o = 0], z2.p[s].d, z2.p[s].o)

\* the pointer lets go first, then the object is deleted
Reset(z, x, o) == Delete(Set(z, x, o, z.p[x].d), z.p[x].d, z.p[x].o)
Left(z, y) == Set(z, y, 0, IF Hollow THEN -1 ELSE z.p[y].d)

\* an object made with script s for pointer x
Make(z, x, d, s) == LET n == New(z) IN Set([z EXCEPT !.o[n] = [k |-> "held", s |-> s]], x, n, d)

MoveConstruct(z, x, y) == Set(Left(z, y), x, z.p[y].o, z.p[y].d)
MoveAssign(z, x, y) ==
  IF x = y THEN z
  ELSE LET held == z.p[y].o
           z1 == [Set(z, y, 0, z.p[y].d) EXCEPT !.busy = x]
           z2 == Reset(z1, x, held)
       IN [Left([z2 EXCEPT !.p[x].d = z.p[y].d], y) EXCEPT !.busy = 0]
Destroy(z, x) ==
  LET z1 == Delete([z EXCEPT !.busy = x], z.p[x].d, z.p[x].o)
  IN [z1 EXCEPT !.p[x] = Gone, !.busy = 0]

Op(f, x, y, d, s) == <<f, x, y, d, s>>
Moves(z) ==
  LET L == {x \in Ptrs : z.p[x].live}
      NL == Ptrs \ L
      Full == Free(z) # {}
      D == {x \in Ptrs : Default[x] # -9}
      Known == {x \in L : z.p[x].d # -1}
      Raw == {o \in Objs : z.o[o].k = "raw"}
  IN   {<<Op("Def", x, 0, Default[x], 0), Set(z, x, 0, Default[x])>> : x \in NL \cap D}
  \cup UNION {{<<Op("DefD", x, 0, d, 0), Set(z, x, 0, d)>> : d \in Given[x]} : x \in NL}
  \cup (IF Full THEN UNION {UNION {{<<Op("New", x, 0, d, s), Make(z, x, d, s)>> : d \in Given[x]} : x \in NL} : s \in Scripts} ELSE {})
  \cup (IF Full THEN UNION {{<<Op("NewO", x, 0, Default[x], s), Make(z, x, Default[x], s)>> : x \in NL \cap D} : s \in Scripts} ELSE {})
  \cup UNION {UNION {{<<Op("Raw", x, o, d, 0), Set([z EXCEPT !.o[o].k = "held"], x, o, d)>> : d \in Given[x]} : x \in NL} : o \in Raw}
  \cup {<<Op("MovC", x[1], x[2], 0, 0), MoveConstruct(z, x[1], x[2])>> :
          x \in {y \in NL \X L : Kind[y[1]] = Kind[y[2]] \/ <<Kind[y[2]], Kind[y[1]]>> \in ConvC}}
  \cup {<<Op("MovA", x[1], x[2], 0, 0), MoveAssign(z, x[1], x[2])>> :
          x \in {y \in L \X L : Kind[y[1]] = Kind[y[2]] \/ <<Kind[y[2]], Kind[y[1]]>> \in ConvA}}
  \cup {<<Op("Nul", x, 0, 0, 0), Reset(z, x, 0)>> : x \in L}
  \cup (IF Full THEN {<<Op("RstN", x, 0, 0, s), Reset([z EXCEPT !.o[New(z)] = [k |-> "held", s |-> s]], x, New(z))>> : x \in Known, s \in Scripts} ELSE {})
  \cup {<<Op("RstR", x, o, 0, 0), Reset([z EXCEPT !.o[o].k = "held"], x, o)>> : x \in Known, o \in Raw}
  \cup {<<Op("Rel", x, 0, 0, 0), IF z.p[x].o = 0 THEN z ELSE Set([z EXCEPT !.o[z.p[x].o].k = "raw"], x, 0, z.p[x].d)>> : x \in L}
  \cup {<<Op("Swp", x[1], x[2], 0, 0), [z EXCEPT !.p[x[1]] = z.p[x[2]], !.p[x[2]] = z.p[x[1]]]>> :
          x \in {y \in L \X L : Kind[y[1]] = Kind[y[2]]}}
  \cup {<<Op("Des", x, 0, 0, 0), Destroy(z, x)>> : x \in L}

Enc(z) == <<[i \in Ptrs |-> IF z.p[i].live THEN <<1, z.p[i].o, z.p[i].d>> ELSE <<0, 0, 0>>],
            [i \in Objs |-> <<z.o[i].k, z.o[i].s>>]>>

VARIABLE z
Init == z = Start /\ PrintT("I " \o ToString(Enc(z)))
Quiet(y) == [y EXCEPT !.ev = << >>]
Next == \E m \in Moves(z) :
          /\ ~m[2].bad
          /\ z' = Quiet(m[2])
          /\ PrintT("T " \o ToString(<<Enc(z), m[1], m[2].ev, Enc(m[2])>>))

Holders(o) == {x \in Ptrs : z.p[x].live /\ z.p[x].o = o}
OneHolder == \A o \in Objs : Cardinality(Holders(o)) = IF z.o[o].k = "held" THEN 1 ELSE 0
Known == \A x \in Ptrs : z.p[x].live /\ z.p[x].o # 0 => z.p[x].d # -1
\* one deletion per object that leaves, by the deleter of its holder when it does
Deaths(ev, o) == Cardinality({i \in DOMAIN ev : ev[i] = <<"dtor", o>>})
Entered(m, o) == \/ m[1][1] \in {"New", "NewO", "RstN"} /\ o = New(z)
                 \/ m[1][1] \in {"Raw", "RstR"} /\ o = m[1][3]
DeletedOnce == \A m \in Moves(z) : m[2].bad \/
   /\ \A o \in Objs : Deaths(m[2].ev, o) = IF (z.o[o].k = "held" \/ Entered(m, o)) /\ m[2].o[o].k = "no" THEN 1 ELSE 0
   /\ \A i \in DOMAIN m[2].ev : m[2].ev[i][1] = "del" =>
         /\ m[2].ev[i + 1] = <<"dtor", m[2].ev[i][3]>>
         /\ \E x \in Ptrs : z.p[x].live /\ z.p[x].d = m[2].ev[i][2]
               /\ (z.p[x].o = m[2].ev[i][3] \/ (Entered(m, m[2].ev[i][3]) /\ x = m[1][2]))
=============================================================================
