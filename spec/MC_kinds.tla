---- MODULE MC_kinds ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<"w">>
cU == <<"u">>
cTy == "a" :> "D" @@ "b" :> "B" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MkC", "MkA", "NulC", "UnqC", "UnqA", "MovA", "CpyA", "Rst", "Des", "uMk", "uRst", "wDef", "wFroC", "wDes", "LokC", "wFroA"}
====
