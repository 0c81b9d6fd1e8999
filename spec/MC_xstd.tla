---- MODULE MC_xstd ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "i">>
cW == <<"w">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "B" @@ "i" :> "I" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MovC", "MkaC", "MkC", "Rst", "Des", "wDef", "wFroC", "wFroA", "wRst", "wDes", "LokC"}
====
