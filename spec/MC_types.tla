---- MODULE MC_types ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "k", "v", "i">>
cW == <<>>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "B" @@ "k" :> "K" @@ "v" :> "V" @@ "i" :> "I"
cOps == {"Def", "CpyC", "MovC", "CpyA", "MovA", "AliC", "MkaC", "CasC", "CasA", "MkC", "Rst", "Des"}
====
