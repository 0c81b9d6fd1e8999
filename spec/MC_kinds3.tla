---- MODULE MC_kinds3 ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "c">>
cW == <<"w">>
cU == <<"u">>
cTy == "a" :> "D" @@ "b" :> "B" @@ "c" :> "V" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MkC", "MkA", "NulC", "UnqC", "UnqA", "MovA", "CpyA", "Rst", "Des", "uMk", "uRst", "wDef", "wFroC", "wDes", "LokC", "wFroA"}
====
