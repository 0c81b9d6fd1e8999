---- MODULE MC_sfdtor3 ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b">>
cW == <<"w", "x">>
cU == <<"u">>
cTy == "a" :> "D" @@ "b" :> "D" @@ "w" :> "D" @@ "x" :> "V"
cOps == {"Def", "MkC", "UnqC", "SfrC", "CpyC", "MovA", "Rst", "Des", "uMk", "uRst", "wDef", "wSfrC", "wFroA", "wDes", "LokC"}
====
