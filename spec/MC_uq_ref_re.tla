---- MODULE MC_uq_ref_re ----
\* written by tools/mkuq.py
EXTENDS Unique
cKind == <<"T", "T", "B">>
cConvC == {<<"T", "B">>}
cConvA == {<<"T", "B">>}
cGiven == <<{1, 2}, {1, 2}, {1, 2}>>
cDefault == <<-9, -9, -9>>
====
