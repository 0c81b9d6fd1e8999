---- MODULE MC_uq_arr_re ----
\* written by tools/mkuq.py
EXTENDS Unique
cKind == <<"T", "T">>
cConvC == {}
cConvA == {}
cGiven == <<{1, 2}, {1, 2}>>
cDefault == <<0, 0>>
====
