---- MODULE MC_uq_darr ----
\* written by tools/mkuq.py
EXTENDS Unique
cKind == <<"T", "T", "T">>
cConvC == {}
cConvA == {}
cGiven == <<{}, {}, {}>>
cDefault == <<0, 0, 0>>
====
