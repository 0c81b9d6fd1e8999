---- MODULE MC_unqmem ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<>>
cU == <<"u">>
cTy == "a" :> "D" @@ "b" :> "D"
cOps == {"Def", "CpyA", "MovA", "MkC", "UnqA", "UnqC", "uMk", "Rst", "Des"}
====
