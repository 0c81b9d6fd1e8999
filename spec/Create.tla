------------------------------- MODULE Create -------------------------------
(* What the creation functions construct. Two variables src hold values that *)
(* can be given as arguments, two slots hold what was created: <<n, value>>, *)
(* n elements (1: a single object, made in place or not; 0: nothing, -1: an  *)
(* array without elements).                                                  *)
(*                                                                           *)
(* Values: 1, 2 given; Dflt made without an argument; 0 moved from;          *)
(* 10 + 3a + b made from an lvalue of value a and an rvalue of value b.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Dflt,      \* value of an object made without arguments
          OverVal,   \* .. by the for_overwrite functions (-1: anything)
          Movable,   \* moving changes the source
          Rich,      \* has constructors of several arguments and ones that throw
          MaxLen     \* elements of arrays: 0..MaxLen

Vals == {0, 1, 2}
Nothing == <<0, 0>>
Start == [src |-> <<1, 2>>, slot |-> <<Nothing, Nothing>>, ev |-> << >>]

After(v) == IF Movable THEN 0 ELSE v
Put(z, s, n, v, ev) == [z EXCEPT !.slot[s] = <<n, v>>, !.ev = ev]
Took(z, i) == [z EXCEPT !.src[i] = After(@)]
TookHeld(z, s) == [z EXCEPT !.slot[s][2] = After(@)]

\* argument forms: category of the expression; what is constructed from it
Forms == {"lv", "clv", "rv", "crv"}
How(form) == IF form = "rv" THEN "move" ELSE "copy"

\* ways to create: "make" forwards any arguments, "from" takes one object
Op(f, s, form, i, k) == <<f, s, form, i, k>>
Moves(z) ==
  LET Empty == {s \in 1..2 : z.slot[s] = Nothing}
      Other(s) == 3 - s
      Full(s) == z.slot[s][1] = 1 /\ z.slot[s][2] # -1
  IN   UNION {
        {<<Op("make", s, "none", 0, 0), Put(z, s, 1, Dflt, <<"default">>)>>}
        \cup {<<Op("make", s, "val", 0, k), Put(z, s, 1, k, <<"value">>)>> : k \in {1, 2}}
        \cup {<<Op(f, s, form, i, 0), Put(IF form = "rv" THEN Took(z, i) ELSE z, s, 1, z.src[i], <<How(form)>>)>> :
                 f \in {"make", "from"}, form \in Forms, i \in 1..2}
        \cup (IF Full(Other(s))
              THEN {<<Op(f, s, "held", Other(s), 0), Put(z, s, 1, z.slot[Other(s)][2], <<"copy">>)>> : f \in {"make", "from"}}
                   \cup {<<Op(f, s, "heldmv", Other(s), 0), Put(TookHeld(z, Other(s)), s, 1, z.slot[Other(s)][2], <<"move">>)>> : f \in {"make", "from"}}
              ELSE {})
        \cup {<<Op("over", s, "none", 0, 0), Put(z, s, 1, OverVal, <<"default">>)>>}
        \cup {<<Op("arr", s, "none", 0, k), Put(z, s, IF k = 0 THEN -1 ELSE k, Dflt, [i \in 1..k |-> "default"])>> : k \in 0..MaxLen}
        \cup {<<Op("arrover", s, "none", 0, k), Put(z, s, IF k = 0 THEN -1 ELSE k, OverVal, [i \in 1..k |-> "default"])>> : k \in 0..MaxLen}
        \cup (IF ~Rich THEN {} ELSE
              {<<Op("make", s, "two", i, 0), Put(Took(z, 3 - i), s, 1, 10 + 3 * z.src[i] + z.src[3 - i], <<"two">>)>> : i \in 1..2}
              \cup {<<Op("make", s, "twoc", i, 0), Put(z, s, 1, 10 + 3 * z.src[i] + z.src[3 - i], <<"twoc">>)>> : i \in 1..2}
              \cup {<<Op("make", s, "mvonly", 0, k), Put(z, s, 1, k, <<"mvonly">>)>> : k \in {1, 2}}
              \cup {<<Op("make", s, "pair", i, k), Put(z, s, 1, 10 + 3 * i + k, <<"pair">>)>> : i \in 1..2, k \in 1..2}
              \cup {<<Op("make", s, "text", 0, k), Put(z, s, 1, k, <<"text">>)>> : k \in 1..2}
              \cup {<<Op("make", s, "many", i, k), Put(Took(Took(z, 1), 2), s, 1, 10 + 3 * i + k, <<"many">>)>> : i \in 1..2, k \in 1..2}
              \cup {<<Op(f, s, "throw", 0, 0), z>> : f \in {"make", "from", "over", "arr", "arrover"}})
        : s \in Empty}
  \cup {<<Op("drop", s, "", 0, 0), Put(z, s, 0, 0, [i \in 1..(IF z.slot[s][1] < 0 THEN 0 ELSE z.slot[s][1]) |-> "destroy"])>> : s \in (1..2) \ Empty}
  \cup {<<Op("set", i, "", 0, k), [z EXCEPT !.src[i] = k]>> : i \in 1..2, k \in {1, 2}}

Enc(z) == <<z.src, z.slot>>
VARIABLE z
Init == z = Start /\ PrintT("I " \o ToString(Enc(z)))
Next == \E m \in Moves(z) :
          /\ z' = [m[2] EXCEPT !.ev = << >>]
          /\ PrintT("T " \o ToString(<<Enc(z), m[1], m[2].ev, Enc(m[2])>>))

TypeOK == /\ \A i \in 1..2 : z.src[i] \in Vals
          /\ \A s \in 1..2 : z.slot[s][1] \in -1..MaxLen
\* exactly one object (n for an array), the sources change only where moved from
Exact == \A m \in Moves(z) :
   LET made == {s \in 1..2 : z.slot[s] = Nothing /\ m[2].slot[s] # Nothing}
   IN /\ Cardinality(made) <= 1
      /\ \A s \in made : Len(m[2].ev) = (IF m[2].slot[s][1] < 0 THEN 0 ELSE m[2].slot[s][1])
      /\ \A i \in 1..2 : m[2].src[i] # z.src[i] => m[1][1] = "set" \/ (Movable /\ m[1][3] \in {"rv", "two", "many"})
      /\ m[1][3] = "throw" => m[2] = z
=============================================================================
