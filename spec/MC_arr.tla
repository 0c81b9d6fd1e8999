---- MODULE MC_arr ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "k">>
cW == <<"w">>
cU == <<"u">>
cTy == "a" :> "D" @@ "b" :> "D" @@ "k" :> "K" @@ "w" :> "D"
cOps == {"Def", "CpyC", "MovC", "MkC", "CpyA", "MovA", "MkA", "UnqC", "NulC", "uMk", "Rst", "Swp", "Des", "wDef", "wFroC", "wFroA", "wMovA", "wCpyC", "wSwp", "wRst", "wDes", "LokC", "LokA", "SfrC"}
====
