---- MODULE MC_mem3 ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<>>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "D"
cOps == {"Def", "CpyC", "MkC", "CpyA", "MovA", "MkA", "Rst", "Swp", "Des"}
====
