"""Concurrent properties: the real code's schedules against the automata TLC prints from Conc.tla,
and its accesses against the happens-before relation of HB.tla."""
import os, json, subprocess, hashlib, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
import vf, scn
from vf import Problem, log

MC = os.path.join(vf.HARN, "mc")
VARIANTS = {"xmem": ("c++17", []), "track": ("c++17", ["-DTRACK=1"]), "std": ("c++17", ["-DSTDP=1"]), "std20": ("c++20", ["-DSTDP=1"])}
WHAT = {"xmem": "xmem", "track": "xmem with a tracking control block", "std": "std::shared_ptr with xstd", "std20": "std::shared_ptr with xstd as C++20"}


def build(variant, must=True):
    """The explorer with the programs on this kind of pointers. None: does not compile."""
    std, flags = VARIANTS[variant]
    key = hashlib.sha256((vf.repo_hash() + vf.harness_hash() + variant).encode()).hexdigest()[:16]
    d = os.path.join(vf.BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "mc_%s-%s" % (variant, key))
    if os.path.exists(out): return out
    tmp = tempfile.mkdtemp(prefix="mc_", dir=d)
    try:
        cmds = [["g++", "-std=" + std, "-O1", "-g1", "-Wno-tsan", "-fsanitize=thread", "-I" + os.path.join(vf.REPO, "code"), "-c", os.path.join(MC, "ops.cpp"), "-o", tmp + "/ops.o"] + flags,
                ["g++", "-std=c++17", "-O2", "-g1", "-c", os.path.join(MC, "rt.cpp"), "-o", tmp + "/rt.o"]]
        with ThreadPoolExecutor(2) as ex:
            rs = list(ex.map(lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace"), cmds))
        rs.append(subprocess.run(["g++", tmp + "/ops.o", tmp + "/rt.o", "-o", tmp + "/mc", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace"))
        for r in rs:
            if r.returncode:
                raise Problem("does not compile: %s\n%s" % (" ".join(map(str, r.args)), r.stdout[-3000:]))
        os.replace(tmp + "/mc", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def scnfile(fam, deep):
    name = fam + ("_deep" if deep else "")
    txt = "\n".join(scn.text(i + 1, n) for i, n in enumerate(scn.family(fam, deep))) + "\n"
    d = os.path.join(vf.BUILD, "scn")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.scn" % (name, hashlib.sha256(txt.encode()).hexdigest()[:12]))
    if not os.path.exists(p):
        with open(p + ".tmp%d" % os.getpid(), "w") as f: f.write(txt)
        os.replace(f.name, p)
    return p


class Part:
    """Families of programs on a kind of pointers; which kinds of failure this property is about."""
    def __init__(self, fams, variant="xmem", facets="spec mem leak crash stuck", maxexec=4000, bound=3, deep=None, traces=0):
        self.__dict__.update(locals())
        self.fams = fams.split()


def run(check, parts):
    deep = check.thorough
    with ThreadPoolExecutor(vf.JOBS) as ex, ThreadPoolExecutor(3) as tx:
        bins = {v: ex.submit(build, v) for v in sorted({p.variant for p in parts})}
        graphs = {f: tx.submit(vf.graph, "conc_" + f + ("_deep" if deep else ""), workers=4) for f in sorted({f for p in parts for f in p.fams})}
        graphs = {f: g.result() for f, g in graphs.items()}
        for g in graphs.values():
            check.cov["states"] += g["states"]
            check.cov["transitions"] += g["transitions"]
        broken = [b.exception() for b in bins.values() if b.exception()]
        bins = {v: b.result() for v, b in bins.items() if not b.exception()}
    traces = []
    for p in parts:
        for f in p.fams:
            if p.variant not in bins: continue
            traces += explore(check, p, f, bins[p.variant], graphs[f], deep)
            if len(check.violations) >= 10: return traces
    if broken and not check.violations: raise broken[0]
    return traces


def explore(check, p, fam, binary, g, deep):
    limit = 500 if deep else 150
    cmd = [binary, "--scn", scnfile(fam, deep), "--aut", g["file"], "--workers", str(vf.JOBS), "--facets", p.facets.replace(" ", ","),
           "--maxexec", str(p.maxexec * (10 if deep else 1)), "--bound", str(p.bound + (1 if deep else 0)), "--limit", str(limit), "--seed", str(check.seed), "--maxfail", "5"]
    if p.traces: cmd += ["--trace", str(p.traces)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit + 200)
    done, traces = None, []
    for l in r.stdout.splitlines():
        if l.startswith("FAIL "):
            f = json.loads(l[5:])
            check.violation("%s, program %s of %s (%s): %s: %s" % (WHAT[p.variant], f["scenario"], fam, f["program"], f["facet"], f["msg"]),
                            kind="concurrent", variant=p.variant, family=fam, deep=deep, **f)
        elif l.startswith("TRACE "): traces.append((p.variant, fam, json.loads(l[6:])))
        elif l.startswith("DONE "): done = json.loads(l[5:])
    if not done:
        raise Problem("explorer failed on %s: rc %s\n%s" % (fam, r.returncode, (r.stdout + r.stderr)[-2000:]))
    clean = not done["failures"] and not done["foreign"] and not done["unconfirmed"]
    if clean and done["seconds"] < limit - 5 and (done["explored"] < done["scenarios"] or done["lost_workers"]):
        raise Problem("explorer left programs of %s out: %s" % (fam, done))
    check.cov["traces_validated_against_impl"] += done["executions"]
    for k in (1, done["scenarios"] // 2):
        with open(scnfile(fam, deep)) as f: lines = f.read().splitlines()
        if k <= len(lines): check.sample("%s on %s, %s" % (fam, WHAT[p.variant], lines[k - 1]))
    check.part("%s on %s" % (fam, WHAT[p.variant]), programs=done["scenarios"], spec_states=done["states"], spec_transitions=done["transitions"],
               schedules_run_in_real_code=done["executions"], labels_checked=done["labels_checked"],
               programs_explored_fully_within_preemptions={str(i): n for i, n in enumerate(done["within_bound"])}, failures=done["failures"],
               other_properties=done["foreign"], races=done["races"], facets=p.facets, seconds=done["seconds"])
    return traces


# ---------------------------------------------------------------- happens-before
ORDERS = {0: "relaxed", 1: "consume", 2: "acquire", 3: "release", 4: "acq_rel", 5: "seq_cst"}

def tla_trace(c, t):
    ev = ",".join('<<"%s",%d,<<%s>>,%d>>' % (e[0], e[1], ",".join(map(str, e[2])), e[3]) for e in t["events"])
    return " \\/ Start(%d, %d, <<%s>>)" % (c + 1, t["threads"], ev)

def hb(traces, timeout=600):
    """TLC's verdict on each trace: 0, or the event that races."""
    if not traces: return [], {"states": 0, "transitions": 0}
    d = tempfile.mkdtemp(prefix="hb_", dir=vf.BUILD)
    try:
        shutil.copy(os.path.join(vf.SPEC, "HB.tla"), d)
        with open(d + "/MC_HB.tla", "w") as f:
            f.write("---- MODULE MC_HB ----\nEXTENDS HB\nInit ==\n" + "\n".join(tla_trace(c, t) for c, t in enumerate(traces)) + "\n====\n")
        with open(d + "/MC_HB.cfg", "w") as f:
            f.write("INIT Init\nNEXT Next\nINVARIANT Sane\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n")
        p = subprocess.run(["tlc", "-metadir", d + "/m", "-noGenerateSpecTE", "-workers", str(vf.JOBS), "MC_HB.tla"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        v = {}
        for m in re.finditer(r'"V <<(\d+), <<(\d*)', p.stdout): v[int(m.group(1))] = int(m.group(2) or 0)
        if p.returncode or "No error has been found" not in p.stdout or len(v) != len(traces):
            raise Problem("TLC does not accept the recorded traces (%d of %d):\n%s" % (len(v), len(traces), "\n".join(x for x in p.stdout.splitlines() if not x.startswith('"V'))[-3000:]))
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", p.stdout)
        return [v[i + 1] for i in range(len(traces))], {"transitions": int(m.group(1).replace(",", "")), "states": int(m.group(2).replace(",", ""))}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def weakened(t):
    """The same trace with every atomic operation relaxed and no fences."""
    return dict(t, events=[[e[0], e[1], e[2], 0] for e in t["events"] if e[0] != "N"])
