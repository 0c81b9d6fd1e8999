---- MODULE MC_core3 ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "c">>
cW == <<"w">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "D" @@ "c" :> "D" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MovC", "MkC", "CpyA", "MovA", "MkA", "Rst", "Swp", "Des", "Bulk", "AliC", "wDef", "wFroC", "wDes", "wRst", "LokC", "wFroA"}
====
