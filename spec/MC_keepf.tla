---- MODULE MC_keepf ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<"w">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "B" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MkC", "Des", "wDef", "wFroA", "wDes", "LokC", "NulC", "fRawC", "fRawA"}
====
