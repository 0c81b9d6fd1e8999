---- MODULE MC_keep3 ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<"w">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "D" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MkC", "MkA", "NulC", "MovA", "Rst", "Des", "wDef", "wFroA", "wDes", "LokC"}
====
