#!/usr/bin/env python3
"""Writes the model configurations spec/MC_uq_*.tla/.cfg of Unique.tla."""
import os
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
def model(name, kind, given, default, nobj, convc=(), conva=(), hollow=False, watch=True, scripts=(0,)):
    n = len(kind)
    seq = lambda xs: "<<" + ", ".join(xs) + ">>"
    pairs = lambda ps: "{" + ", ".join('<<"%s", "%s">>' % p for p in ps) + "}"
    with open(os.path.join(SPEC, "MC_uq_%s.tla" % name), "w") as f:
        f.write("---- MODULE MC_uq_%s ----\n\\* written by tools/mkuq.py\nEXTENDS Unique\n" % name)
        f.write("cKind == %s\ncConvC == %s\ncConvA == %s\n" % (seq('"%s"' % k for k in kind), pairs(convc), pairs(conva)))
        f.write("cGiven == %s\ncDefault == %s\n====\n" % (seq("{" + ", ".join(map(str, g)) + "}" for g in given), seq(str(d) for d in default)))
    with open(os.path.join(SPEC, "MC_uq_%s.cfg" % name), "w") as f:
        f.write("INIT Init\nNEXT Next\nCONSTANTS\n NPtr = %d\n NObj = %d\n Kind <- cKind\n ConvC <- cConvC\n ConvA <- cConvA\n Given <- cGiven\n Default <- cDefault\n" % (n, nobj))
        f.write(" Hollow = %s\n Watch = %s\n Scripts = {%s}\n" % (str(hollow).upper(), str(watch).upper(), ", ".join(map(str, scripts))))
        f.write("INVARIANTS OneHolder Known DeletedOnce\nCHECK_DEADLOCK FALSE\n")
two = (1, 2)
TB = [("T", "B")]
def family(sfx, o3, o2, scripts):
    val = dict(convc=TB, conva=TB, hollow=True, scripts=scripts)
    P = 2 if sfx == "_re" else 3
    k = lambda *x: x[:2] if P == 2 and x[0] == x[1] == x[-1] else x
    model("val" + sfx, ("T", "T", "B"), (two,) * 3, (0,) * 3, o2, **val)
    model("arr" + sfx, ("T",) * P, (two,) * P, (0,) * P, o3, hollow=True, scripts=scripts)
    model("ref" + sfx, ("T", "T", "B"), (two,) * 3, (-9,) * 3, o2, convc=TB, conva=TB, scripts=scripts)
    model("fn" + sfx, ("T", "T", "L"), (two, two, ()), (-9, -9, 1), o2, conva=[("L", "T")], scripts=scripts)
    model("def" + sfx, ("T", "T", "B"), ((),) * 3, (0,) * 3, o3, convc=TB, conva=TB, watch=False, scripts=scripts)
    model("darr" + sfx, ("T",) * P, ((),) * P, (0,) * P, o3, watch=False, scripts=scripts)
family("", 3, 3, (0,))
family("_re", 3, 2, (0, 1, 2))
family("_deep", 4, 3, (0, 1, 2))
