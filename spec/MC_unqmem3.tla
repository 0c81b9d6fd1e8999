---- MODULE MC_unqmem3 ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<>>
cU == <<"u">>
cTy == "a" :> "D" @@ "b" :> "D"
cOps == {"Def", "CpyA", "MovA", "MkC", "UnqA", "UnqC", "uMk", "Rst", "Des"}
====
