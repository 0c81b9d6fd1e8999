---- MODULE MC_xstdsf ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "k", "v", "i">>
cW == <<"w">>
cU == <<"u">>
cTy == "a" :> "D" @@ "k" :> "K" @@ "v" :> "V" @@ "i" :> "I" @@ "w" :> "D"
cOps == {"Def", "MkC", "UnqC", "SfrC", "SfrU", "SfrA", "Des", "uMk", "uRst", "OCpy", "wDef", "wSfrC", "wDes", "LokC", "MovC"}
====
