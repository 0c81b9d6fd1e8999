---- MODULE MC_keep ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "c">>
cW == <<"w">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "D" @@ "c" :> "B" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MkC", "MkA", "NulC", "MovA", "Rst", "Des", "wFroC", "wDes", "LokC"}
====
