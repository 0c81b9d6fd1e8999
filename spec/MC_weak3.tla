---- MODULE MC_weak3 ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<"v", "w", "x">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "D" @@ "v" :> "D" @@ "w" :> "D" @@ "x" :> "B"
cOps == {"Def", "CpyC", "MkC", "MovA", "Rst", "Des", "AliC", "wDef", "wCpyC", "wMovC", "wFroC", "wCpyA", "wMovA", "wFroA", "wRst", "wSwp", "wDes", "wBulk", "LokC", "LokA", "wAliC", "wAlsC"}
====
