---- MODULE MC_uq_val_deep ----
\* written by tools/mkuq.py
EXTENDS Unique
cKind == <<"T", "T", "B">>
cConvC == {<<"T", "B">>}
cConvA == {<<"T", "B">>}
cGiven == <<{1, 2}, {1, 2}, {1, 2}>>
cDefault == <<0, 0, 0>>
====
