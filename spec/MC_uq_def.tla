---- MODULE MC_uq_def ----
\* written by tools/mkuq.py
EXTENDS Unique
cKind == <<"T", "T", "B">>
cConvC == {<<"T", "B">>}
cConvA == {<<"T", "B">>}
cGiven == <<{}, {}, {}>>
cDefault == <<0, 0, 0>>
====
