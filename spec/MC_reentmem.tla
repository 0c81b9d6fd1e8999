---- MODULE MC_reentmem ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<"w">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "D" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MkC", "CpyA", "MovA", "Rst", "Des", "wDef", "wFroA", "wDes"}
====
