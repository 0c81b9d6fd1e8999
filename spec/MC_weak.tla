---- MODULE MC_weak ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<"v", "w">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "D" @@ "v" :> "D" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MkC", "MovA", "Rst", "Des", "AliC", "wDef", "wCpyC", "wMovC", "wFroC", "wCpyA", "wMovA", "wFroA", "wRst", "wSwp", "wDes", "wBulk", "LokC", "LokA", "wAliC", "wAlsC"}
====
