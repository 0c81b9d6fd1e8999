---- MODULE MC_uq_darr_re ----
\* written by tools/mkuq.py
EXTENDS Unique
cKind == <<"T", "T">>
cConvC == {}
cConvA == {}
cGiven == <<{}, {}>>
cDefault == <<0, 0>>
====
