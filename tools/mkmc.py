#!/usr/bin/env python3
"""Writes the model configurations spec/MC_*.tla/.cfg of Ownership.tla."""
import os
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
def tset(xs): return "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in xs) + "}"
def tseq(xs): return "<<" + ", ".join('"%s"' % x for x in xs) + ">>"
BASE = "Def CpyC MovC Rst Des "
def model(name, S, W="", U="", N=2, ops="", kinds=(0,), scripts=(0,), classes=(0,), mem=False, spec=None):
    slots = lambda s: [tuple(x.split(":")) for x in s.split()]
    S, W, U = slots(S), slots(W), [x for x in U.split()]
    ty = " @@ ".join('"%s" :> "%s"' % (n, t) for n, t in S + W)
    with open(os.path.join(SPEC, "MC_%s.tla" % name), "w") as f:
        f.write("---- MODULE MC_%s ----\n\\* written by tools/mkmc.py\nEXTENDS Ownership\n" % name)
        f.write("cS == %s\ncW == %s\ncU == %s\ncTy == %s\n" % (tseq([n for n, _ in S]), tseq([n for n, _ in W]), tseq(U), ty))
        f.write("cOps == %s\n====\n" % tset(ops.split()))
    for mode, spec in (("", "SpecEmit"), ("_check", "Spec")) if not spec else (("", spec),):
        with open(os.path.join(SPEC, "MC_%s%s.cfg" % (name, mode)), "w") as f:
            f.write("SPECIFICATION %s\nCONSTANTS\n N = %d\n SSlot <- cS\n WSlot <- cW\n USlot <- cU\n Ty <- cTy\n Ops <- cOps\n" % (spec, N))
            f.write(" Kinds = %s\n Scripts = %s\n Classes = %s\n Mem = %s\n" % (tset(kinds), tset(scripts), tset(classes), "TRUE" if mem else "FALSE"))
            f.write("INVARIANT Inv\n" + ("PROPERTY NoRevival\n" if mode != "" or spec == "SpecEmit" else "") + "CHECK_DEADLOCK FALSE\n")
ALLV = "Def CpyC MovC MkC CpyA MovA MkA Rst Swp Des Bulk "
ALLW = "wDef wCpyC wMovC wFroC wCpyA wMovA wFroA wRst wSwp wDes wBulk LokC LokA "
model("core", "a:D b:D c:D", "w:D", ops=ALLV + "AliC wDef wFroC wDes wRst LokC wFroA")
model("weak", "a:D b:D", "v:D w:D", ops="Def CpyC MkC MovA Rst Des AliC " + ALLW + "wAliC wAlsC")
TYOPS = "Def CpyC MovC CpyA MovA AliC MkaC CasC CasA MkC Rst Des"
model("tybase", "a:D b:B v:V", "", N=1, ops=TYOPS, classes=(0, 1))
model("tyconst", "a:D k:K v:V i:I", "", N=1, ops="Def CpyC MovC CpyA MovA AliC CasC CasA MkC Des", classes=(0,))
model("types", "a:D b:B k:K v:V i:I", "", N=1, ops="Def CpyC MovC CpyA MovA AliC MkaC CasC CasA MkC Rst Des", classes=(0, 1))
model("alias", "a:D b:B i:I", "w:D x:B", N=1, ops="Def CpyC MovC AliC AliA MkaC MkC Rst Des wDef wFroC wAliC wAlsC wCpyC wMovC wCpyA wMovA wFroA LokC LokA wRst wDes", kinds=(0,))
model("kinds", "a:D b:B", "w:D", "u", ops="Def CpyC MkC MkA NulC UnqC UnqA MovA CpyA Rst Des uMk uRst wDef wFroC wDes LokC wFroA", kinds=(0, 1, 2), classes=(0, 1))
model("mem", "a:D b:D", "w:D", ops="Def CpyC MkC CpyA MovA MkA Rst Swp Des wDef wFroA wDes", mem=True, scripts=(0,))
model("reent", "a:D b:D", "w:D", ops="Def CpyC MkC CpyA MovA MkA Rst Des wDef wFroA wDes", scripts=(0, 1, 2, 5, 6))
model("unqmem", "a:D b:D", "", "u", ops="Def CpyA MovA MkC UnqA UnqC uMk Rst Des", mem=True, scripts=(0, 1))
model("sf", "a:D k:K v:V i:I", "w:D", "u", N=2, ops="Def MkC UnqC NulC SfrC SfrU SfrA Des uMk uRst OCpy wDef wSfrC wDes LokC", kinds=(0, 1))
model("sfdtor", "a:D b:D", "w:D x:V", "u", N=2, ops="Def MkC UnqC SfrC CpyC MovA Rst Des uMk uRst wDef wSfrC wFroA wDes LokC", kinds=(0, 2), scripts=(0, 3, 4))
model("keep", "a:D b:D c:B", "w:D", ops="Def CpyC MkC MkA NulC MovA Rst Des wFroC wDes LokC", N=2, kinds=(0, 4))
model("keepre", "a:D b:D", "w:D", ops="MkC CpyC MkA MovA Rst Des wFroC wDes", N=2, mem=True, scripts=(0, 1, 5), kinds=(4,))
model("arr", "a:D b:D k:K", "w:D", "u", N=2, ops="Def CpyC MovC MkC CpyA MovA MkA UnqC NulC uMk Rst Swp Des wDef wFroC wFroA wMovA wCpyC wSwp wRst wDes LokC LokA SfrC", kinds=(2,))
model("fault", "a:D b:B", "w:D", "u", ops="Def CpyC MkC Des uMk uRst UnqC wDef wFroA wDes SfrU SfrC fMkC fRawC fUnqC fMkA fRawA fUnqA", kinds=(0, 2))
model("keepf", "a:D b:B", "w:D", ops="Def CpyC MkC Des wDef wFroA wDes LokC NulC fRawC fRawA", kinds=(0, 4))
# std::shared_ptr with the xstd helpers
model("xstd", "a:D b:B i:I", "w:D", ops="Def CpyC MovC MkaC MkC Rst Des wDef wFroC wFroA wRst wDes LokC", kinds=(0, 2))
model("xstdsf", "a:D k:K v:V i:I", "w:D", "u", N=1, ops="Def MkC UnqC SfrC SfrU SfrA Des uMk uRst OCpy wDef wSfrC wDes LokC MovC", kinds=(0, 1))
# deeper, for the thorough tier
model("core3", "a:D b:D c:D", "w:D", N=3, ops=ALLV + "AliC wDef wFroC wDes wRst LokC wFroA")
model("weak3", "a:D b:D", "v:D w:D x:B", N=2, ops="Def CpyC MkC MovA Rst Des AliC " + ALLW + "wAliC wAlsC")
model("types2", "a:D b:B k:K v:V", "", N=2, ops="Def CpyC MovC CpyA MovA MkaC CasC CasA MkC Rst Des", classes=(0, 1))
model("kinds3", "a:D b:B c:V", "w:D", "u", ops="Def CpyC MkC MkA NulC UnqC UnqA MovA CpyA Rst Des uMk uRst wDef wFroC wDes LokC wFroA", kinds=(0, 1, 2), classes=(0, 1))
model("mem3", "a:D b:D", "", N=3, ops="Def CpyC MkC CpyA MovA MkA Rst Swp Des", mem=True)
model("reent3", "a:D b:D c:D", "w:D", N=3, ops="Def CpyC MkC CpyA MovA MkA Rst Des wDef wFroA wDes", scripts=(0, 1, 2, 5, 6))
model("reentmem", "a:D b:D", "w:D", N=2, ops="Def CpyC MkC CpyA MovA Rst Des wDef wFroA wDes", mem=True, scripts=(0, 1, 2, 5, 6))
model("unqmem3", "a:D b:D", "", "u", N=3, ops="Def CpyA MovA MkC UnqA UnqC uMk Rst Des", mem=True, scripts=(0, 1))
model("keep3", "a:D b:D", "w:D", ops="Def CpyC MkC MkA NulC MovA Rst Des wDef wFroA wDes LokC", N=3, kinds=(0, 4), scripts=(0, 1))
model("sfdtor3", "a:D b:D", "w:D x:V", "u", N=3, ops="Def MkC UnqC SfrC CpyC MovA Rst Des uMk uRst wDef wSfrC wFroA wDes LokC", kinds=(0, 2), scripts=(0, 3, 4))
# for long random behaviours (TLC's simulation mode)
def walk(name, ops, **k):
    model(name, "a:D b:D c:B k:K v:V i:I", "w:D x:B y:V", "u", N=6, ops=ops, spec="SpecWalk", **k)
walk("walk", BASE + "AliC MkaC MkC NulC UnqC LokC SfrC SfrU CasC CpyA MovA AliA MkA UnqA LokA SfrA CasA Swp Bulk " + ALLW.replace("LokC LokA", "")
     + "wAliC wAlsC wSfrC uMk uRst OCpy fMkC fRawC fUnqC fMkA fRawA fUnqA", kinds=(0, 1, 2, 4), scripts=range(7), classes=(0, 1), mem=True)
walk("walkx", BASE + "MkaC MkC LokC UnqC SfrC SfrU SfrA wDef wFroC wFroA wRst wDes wSfrC MovA CpyA uMk uRst OCpy Swp CasC CasA LokA wCpyC wMovC wCpyA wMovA wSwp AliC AliA Bulk wBulk", kinds=(0, 1, 2), scripts=(0, 5))
