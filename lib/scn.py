"""The multi-threaded programs whose interleavings are explored, by family."""
import random, itertools

def scenario(v, o, s, w, q, p, c=(0, None), g=(), h=()):
    held = {v[x - 1][0] for ss in list(s) + [q, g] for x in ss if x} | {i + 2 for i, k in enumerate(o) if k == 4}
    o = [k if k < 0 or i + 1 in held else -1 - k for i, k in enumerate(o)]     # nobody's objects do not exist
    own = list(c[1]) if c[1] else [0] * len(p)
    return dict(v=[list(x) for x in v], o=list(o), s=[list(x) for x in s], w=[list(x) for x in w], q=list(q), g=list(g), h=list(h),
                p=[[list(op) + [0] * (4 - len(op)) for op in pr] for pr in p], c=(c[0], own))

def tla(x):
    if isinstance(x, str): return '"%s"' % x
    if isinstance(x, int): return str(x)
    if isinstance(x, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x[k])) for k in "v o s w q g h p c".split()) + "]"
    return "<<" + ", ".join(tla(y) for y in x) + ">>"

def text(i, n):
    """The same for the harness."""
    r = ["SC", i, len(n["o"])] + n["o"] + [len(n["v"])] + sum(n["v"], []) + [len(n["q"])] + n["q"] + [len(n["g"])] + n["g"] + [len(n["h"])] + n["h"] + [n["c"][0], len(n["p"])]
    for t, pr in enumerate(n["p"]):
        r += [len(n["s"][t])] + n["s"][t] + [len(n["w"][t])] + n["w"][t] + [n["c"][1][t], len(pr)]
        for op in pr: r += op
    return " ".join(map(str, r))

def ident(n): return [[i, i] for i in range(1, n + 1)]

def greedy(seed, count, make, cover, tries=20000):
    """Random scenarios, each kept if it covers a pair of features not covered yet, then any more up to count."""
    rnd, seen, out, texts = random.Random(seed), set(), [], set()
    extra = []
    for _ in range(tries):
        if len(out) >= count: break
        n = make(rnd)
        t = tla(n)
        if t in texts: continue
        texts.add(t)
        f = cover(n) - seen
        if f:
            seen |= f
            out.append(n)
        elif len(extra) < count: extra.append(n)
    return out + extra[:max(0, count - len(out))]

def pairs(n):
    """Pairs (operation with its initial pointers, same of another thread)."""
    r = set()
    fs = []
    for t, pr in enumerate(n["p"]):
        cfg = (tuple(bool(x) for x in n["s"][t]), tuple(bool(x) for x in n["w"][t]))
        fs.append([(op[0],) + cfg for op in pr if op[0] != "en"])
    for a, b in itertools.permutations(range(len(fs)), 2):
        for x in fs[a]:
            for y in fs[b]: r.add((len(fs), x, y))
    return r

OWN = [("cp", 2, 1), ("mv", 2, 1), ("cv", 2, 1), ("mb", 2, 1), ("rs", 1), ("sw", 1, 2), ("wk", 1, 1), ("wk", 2, 1), ("wr", 1), ("wc", 2, 1), ("wm", 2, 1), ("ws", 1, 2),
       ("lk", 2, 1), ("lk", 1, 1), ("uc", 1), ("wu", 1), ("ex", 1), ("us", 1), ("cp", 1, 2), ("mk", 2, 0), ("mk", 1, 0)]

def fix_mk(prs, o):
    """Number the objects threads create."""
    for pr in prs:
        for k, op in enumerate(pr):
            if op[0] == "mk":
                o.append(-1)
                pr[k] = ("mk", op[1], len(o))

def own(seed, two, three):
    def make(rnd, nt, nops):
        o = [rnd.choice([0, 0, 0, 4, 0])]
        if o[0] == 4: o.append(0)
        s, w = [], []
        for t in range(nt):
            a, b = rnd.choice([(1, 1), (1, 0), (0, 1)])
            s.append([a, 2 if len(o) > 1 and rnd.random() < .4 else 0])
            w.append([b, 0])
        if not any(x[0] for x in s): s[0][0] = 1
        prs = [[rnd.choice(OWN) for _ in range(nops)] + [("en",)] for _ in range(nt)]
        fix_mk(prs, o)
        return scenario(ident(len(o)), o, s, w, [], prs)
    return greedy(seed, two, lambda r: make(r, 2, 2), pairs) + greedy(seed + 1, three, lambda r: make(r, 3, 1), pairs)

LCK = [("lk", 1, 1), ("lk", 2, 1), ("ex", 1), ("wu", 1), ("sg", 1, 1), ("sg", 2, 1), ("us", 1), ("rs", 1), ("wc", 2, 1), ("lk", 2, 2)]
def lock(seed, two, three):
    def make(rnd, nt, nops):
        o = [rnd.choice([0, 0, 4])]
        if o[0] == 4: o.append(0)
        s, w, prs = [], [], []
        holders = rnd.randint(1, nt - 1)
        for t in range(nt):
            hold = t < holders
            s.append([1 if hold else 0, 0])
            w.append([1 if (not hold or rnd.random() < .5) else 0, 0])
            if hold: prs.append([rnd.choice(LCK + [("rs", 1)] * 5) for _ in range(rnd.randint(0, nops - 1))] + [("en",)])
            else: prs.append([rnd.choice(LCK + [("lk", 1, 1), ("lk", 2, 1), ("sg", 1, 1)]) for _ in range(nops)] + ([("en",)] if rnd.random() < .7 else []))
        return scenario(ident(len(o)), o, s, w, [], prs)
    return greedy(seed, two, lambda r: make(r, 2, rnd_ops(r)), pairs) + greedy(seed + 1, three, lambda r: make(r, 3, 2), pairs)
def rnd_ops(r): return r.choice([2, 2, 3])

COM = [("gc", 1, 1), ("gc", 2, 2), ("gk", 1, 1), ("gl", 1, 1), ("gl", 2, 1), ("gl", 1, 2), ("gw", 1, 1), ("gw", 1, 2), ("gf", 1, 1), ("gu", 1), ("gv", 1), ("gv", 2), ("gx", 1), ("gx", 2), ("go", 1)]
def common(seed, two, three):
    def make(rnd, nt, nops):
        o = [0, 0]
        g = [1, rnd.choice([0, 1])]
        h = [rnd.choice([1, 2, 2]), rnd.choice([0, 1, 2])]
        s = [[rnd.choice([0, 1, 2, 2, 2]), 0] for t in range(nt)]
        w = [[rnd.choice([0, 1, 2])] for t in range(nt)]
        if not any(x[0] == 2 for x in s): s[0][0] = 2
        prs = [[rnd.choice(COM + [("rs", 1), ("lk", 2, 1), ("rs", 1)]) for _ in range(nops)] + ([("en",)] if rnd.random() < .7 else []) for t in range(nt)]
        return scenario(ident(2), o, s, w, [], prs, g=g, h=h)
    return greedy(seed, two, lambda r: make(r, 2, 2), pairs) + greedy(seed + 1, three, lambda r: make(r, 3, 1), pairs)

STO = [("ld", 1, 1), ("ld", 3, 1), ("st", 1, 1), ("st", 1, 2), ("sm", 1, 1), ("sn", 1), ("xc", 1, 1, 2), ("xc", 1, 1, 1), ("xm", 2, 1, 1), ("xm", 1, 1, 1),
       ("cx", 1, 1, 2), ("cx", 1, 2, 1), ("cm", 1, 1, 2), ("cx", 1, 1, 1), ("cx", 1, 3, 1)]
def storage(seed, two, three):
    def make(rnd, nt, nops):
        o = [0] * 3
        v = ident(3)
        # equal address with another owner, null address with an owner, address without owner
        if rnd.random() < .35: v += [[1, 2], [2, 1], [3, 0], [0, 3]]
        vals = [0] + list(range(1, len(v) + 1))
        q = [rnd.choice(vals)]
        s = []
        for t in range(nt):
            a = rnd.choice(vals + q + q)
            s.append([a, rnd.choice(vals), rnd.choice([0, q[0]])])
        prs = [[rnd.choice(STO) for _ in range(nops)] for _ in range(nt)]
        if rnd.random() < .3: prs[0].append(("en",))
        return scenario(v, o, s, [[0] for _ in range(nt)], q, prs)
    return greedy(seed, two, lambda r: make(r, 2, 2), cover_sto) + greedy(seed + 1, three, lambda r: make(r, 3, 1), cover_sto)
def cover_sto(n):
    r = set()
    for a, b in itertools.permutations(range(len(n["p"])), 2):
        for x in n["p"][a]:
            for y in n["p"][b]: r.add((len(n["p"]), tuple(x), tuple(y)))
    return r

def reent(seed, one, two):
    def make(rnd, nt, nops):
        k = rnd.choice([1, 2, 3, 5])
        o = [k, rnd.choice([0, 1, 2, 3, 5]), 0]
        q = [rnd.choice([1, 1, 1, 2])]
        s = [[rnd.choice([0, 1, 2, 3, 3]), rnd.choice([0, 2, 3]), 0] for t in range(nt)]
        prs = [[rnd.choice(STO) for _ in range(nops)] + ([("en",)] if rnd.random() < .5 else []) for _ in range(nt)]
        return scenario(ident(3), o, s, [[0] for _ in range(nt)], q, prs)
    def cov(n): return {(len(n["p"]), n["o"][0], tuple(op)) for pr in n["p"] for op in pr} | (cover_sto(n) if len(n["p"]) > 1 else set())
    return greedy(seed, one, lambda r: make(r, 1, 2), cov) + greedy(seed + 1, two, lambda r: make(r, 2, 1), cov)

CNT = [("ci",), ("cd",), ("cz",), ("cc",)]
def count(seed, two, three):
    def make(rnd, nt, nops):
        hold = [rnd.choice([0, 1, 1]) for _ in range(nt)]
        if not any(hold): hold[0] = 1
        prs = [[rnd.choice(CNT) for _ in range(nops)] for _ in range(nt)]
        return scenario([], [], [[] for _ in prs], [[] for _ in prs], [], prs, (sum(hold), hold))
    def cov(n): return {(a, b, tuple(n["c"][1])) for a in map(str, n["p"][0]) for b in map(str, n["p"][1])}
    return greedy(seed, two, lambda r: make(r, 2, 3), cov) + greedy(seed + 1, three, lambda r: make(r, 3, 2), cov)

def copying(r):
    for n in r:
        for pr in n["p"]:
            for op in pr: op[0] = {"cx": "cy", "cm": "cn"}.get(op[0], op[0])
    return r

def family(name, deep=False):
    k = 6 if deep else 1
    if name == "own": return own(1, 120 * k, 70 * k)
    if name == "lock": return lock(2, 120 * k, 60 * k)
    if name == "common": return common(6, 100 * k, 40 * k)
    if name == "xlock":      # for std pointers
        r = family("lock", deep)
        for n in r:
            for pr in n["p"]:
                for op in pr:
                    if op[0] == "sg": op[0] = "sh"
        return r
    if name == "storage": return storage(3, 240 * k, 60 * k)
    if name == "xsto":       # for std::atomic<std::shared_ptr>, which compares owners too
        return copying([n for n in family("storage", deep) if len(n["v"]) == 3])
    if name == "xreent": return copying(family("reent", deep))
    if name == "reent": return reent(4, 80 * k, 100 * k)
    if name == "count": return count(5, 80 * k, 60 * k)

if __name__ == "__main__":
    import os, sys
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
    for name in "own lock common xlock storage xsto reent xreent count".split():
        for deep in (0, 1):
            m = "MC_conc_" + name + ("_deep" if deep else "")
            with open(os.path.join(d, m + ".tla"), "w") as f:
                f.write("---- MODULE %s ----\n\\* written by lib/scn.py\nEXTENDS Conc\nScenarios == <<\n" % m)
                f.write(",\n".join(" " + tla(n) for n in family(name, deep)))
                f.write(" >>\n====\n")
            with open(os.path.join(d, m + ".cfg"), "w") as f:
                f.write("CONSTANT Scn <- Scenarios\nSPECIFICATION SpecEmit\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n")
            with open(os.path.join(d, m + "_check.cfg"), "w") as f:
                f.write("CONSTANT Scn <- Scenarios\nSPECIFICATION Spec\nINVARIANT Inv\nPROPERTY NoRevival\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n")
