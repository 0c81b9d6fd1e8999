---- MODULE MC_walkx ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "c", "k", "v", "i">>
cW == <<"w", "x", "y">>
cU == <<"u">>
cTy == "a" :> "D" @@ "b" :> "D" @@ "c" :> "B" @@ "k" :> "K" @@ "v" :> "V" @@ "i" :> "I" @@ "w" :> "D" @@ "x" :> "B" @@ "y" :> "V"
cOps == {"Def", "CpyC", "MovC", "Rst", "Des", "MkaC", "MkC", "LokC", "UnqC", "SfrC", "SfrU", "SfrA", "wDef", "wFroC", "wFroA", "wRst", "wDes", "wSfrC", "MovA", "CpyA", "uMk", "uRst", "OCpy", "Swp", "CasC", "CasA", "LokA", "wCpyC", "wMovC", "wCpyA", "wMovA", "wSwp", "AliC", "AliA", "Bulk", "wBulk"}
====
