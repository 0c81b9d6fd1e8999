---- MODULE MC_alias ----
\* written by tools/mkmc.py
EXTENDS Ownership
cS == <<"a", "b", "i">>
cW == <<"w", "x">>
cU == <<>>
cTy == "a" :> "D" @@ "b" :> "B" @@ "i" :> "I" @@ "w" :> "D" @@ "x" :> "B"
cOps == {"Def", "CpyC", "MovC", "AliC", "AliA", "MkaC", "MkC", "Rst", "Des", "wDef", "wFroC", "wAliC", "wAlsC", "wCpyC", "wMovC", "wCpyA", "wMovA", "wFroA", "LokC", "LokA", "wRst", "wDes"}
====
