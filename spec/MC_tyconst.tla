---- MODULE MC_tyconst ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "k", "v", "i">>
cW == <<>>
cU == <<>>
cTy == "a" :> "D" @@ "k" :> "K" @@ "v" :> "V" @@ "i" :> "I"
cOps == {"Def", "CpyC", "MovC", "CpyA", "MovA", "AliC", "CasC", "CasA", "MkC", "Des"}
====
