---- MODULE MC_walk ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "c", "k", "v", "i">>
cW == <<"w", "x", "y">>
cU == <<"u">>
cTy == "a" :> "D" @@ "b" :> "D" @@ "c" :> "B" @@ "k" :> "K" @@ "v" :> "V" @@ "i" :> "I" @@ "w" :> "D" @@ "x" :> "B" @@ "y" :> "V"
cOps == {"Def", "CpyC", "MovC", "Rst", "Des", "AliC", "MkaC", "MkC", "NulC", "UnqC", "LokC", "SfrC", "SfrU", "CasC", "CpyA", "MovA", "AliA", "MkA", "UnqA", "LokA", "SfrA", "CasA", "Swp", "Bulk", "wDef", "wCpyC", "wMovC", "wFroC", "wCpyA", "wMovA", "wFroA", "wRst", "wSwp", "wDes", "wBulk", "wAliC", "wAlsC", "wSfrC", "uMk", "uRst", "OCpy", "fMkC", "fRawC", "fUnqC", "fMkA", "fRawA", "fUnqA"}
====
