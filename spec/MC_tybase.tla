---- MODULE MC_tybase ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "v">>
cW == <<>>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "B" @@ "v" :> "V"
cOps == {"Def", "CpyC", "MovC", "CpyA", "MovA", "AliC", "MkaC", "CasC", "CasA", "MkC", "Rst", "Des"}
====
