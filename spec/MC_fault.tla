---- MODULE MC_fault ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<"w">>
cU == <<"u">>
cTy == "a" :> "D" @@ "b" :> "B" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MkC", "Des", "uMk", "uRst", "UnqC", "wDef", "wFroA", "wDes", "SfrU", "SfrC", "fMkC", "fRawC", "fUnqC", "fMkA", "fRawA", "fUnqA"}
====
