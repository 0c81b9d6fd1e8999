---- MODULE MC_uq_arr ----
\* written by tools/mkuq.py
EXTENDS Unique
cKind == <<"T", "T", "T">>
cConvC == {}
cConvA == {}
cGiven == <<{1, 2}, {1, 2}, {1, 2}>>
cDefault == <<0, 0, 0>>
====
