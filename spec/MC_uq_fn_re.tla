---- MODULE MC_uq_fn_re ----
\* written by tools/mkuq.py
EXTENDS Unique
cKind == <<"T", "T", "L">>
cConvC == {}
cConvA == {<<"L", "T">>}
cGiven == <<{1, 2}, {1, 2}, {}>>
cDefault == <<-9, -9, 1>>
====
