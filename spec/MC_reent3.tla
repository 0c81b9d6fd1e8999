---- MODULE MC_reent3 ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "c">>
cW == <<"w">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "D" @@ "c" :> "D" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MkC", "CpyA", "MovA", "MkA", "Rst", "Des", "wDef", "wFroA", "wDes"}
====
