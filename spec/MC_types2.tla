---- MODULE MC_types2 ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "k", "v">>
cW == <<>>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "B" @@ "k" :> "K" @@ "v" :> "V"
cOps == {"Def", "CpyC", "MovC", "CpyA", "MovA", "MkaC", "CasC", "CasA", "MkC", "Rst", "Des"}
====
