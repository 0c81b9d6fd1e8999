---- MODULE MC_keepre ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<"w">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "D" @@ "w" :> "D"
cOps == {"MkC", "CpyC", "MkA", "MovA", "Rst", "Des", "wFroC", "wDes"}
====
