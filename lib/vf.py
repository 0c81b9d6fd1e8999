"""Common parts of the checks: building, TLC, evidence, verdicts."""
import os, sys, json, hashlib, subprocess, time, re, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XMEM_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
JOBS = max(2, min(8, os.cpu_count() or 2))
os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0"
os.environ["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
os.environ["TSAN_OPTIONS"] = "halt_on_error=1"


class Problem(Exception):
    """The check itself cannot give an answer."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def tree(d, exts):
    r = []
    for root, _, fs in os.walk(d):
        r += [os.path.join(root, f) for f in fs if f.endswith(exts)]
    return r


def repo_hash():
    return hash_files(tree(os.path.join(REPO, "code"), (".hpp", ".h", ".inl", ".ipp", ".cpp")))


def harness_hash():
    return hash_files(tree(HARN, (".hpp", ".cpp")))


def compile_one(src, name, flags, cxx="g++", std="c++17", must=True):
    """Builds harness/src against /repo's current tree. Returns the binary."""
    key = hashlib.sha256((repo_hash() + harness_hash() + src + name + cxx + std + " ".join(flags)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s" % (name, key))
    if os.path.exists(out):
        return out
    for f in os.listdir(d):          # older builds of the same program
        if f.startswith(name + "-") and re.fullmatch(re.escape(name) + r"-[0-9a-f]{16}", f):
            try:
                if time.time() - os.path.getmtime(os.path.join(d, f)) > 3600: os.remove(os.path.join(d, f))
            except OSError: pass
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [cxx, "-std=" + std, "-I" + os.path.join(REPO, "code"), "-I" + HARN] + flags + [os.path.join(HARN, src), "-o", tmp, "-lpthread"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        if not must:
            return None
        raise Problem("does not compile: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    os.replace(tmp, out)
    return out


def tlc(module, cfg=None, out=None, extra=(), timeout=None, workers=JOBS, java=("-Xmx3g",)):
    """Runs TLC in a private metadir. Returns its statistics; raises Problem if it fails."""
    cfg = cfg or module + ".cfg"
    meta = tempfile.mkdtemp(prefix="tlc_", dir=os.environ.get("TMPDIR", "/tmp"))
    env = dict(os.environ)
    timeout = timeout or (4000 if os.environ.get("VERIF_TIER") == "thorough" else 800)
    if java: env["JAVA_TOOL_OPTIONS"] = " ".join(java)
    try:
        path = out or os.path.join(meta, "out.txt")
        with open(path, "w") as f:
            p = subprocess.run(["tlc", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg] + list(extra) + [module + ".tla"],
                               cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        st = {"rc": p.returncode, "module": module, "cfg": cfg}
        tail = []
        with open(path, errors="replace") as f:
            for l in f:
                if l[:3] in ('"T ', '"H ', '"P ', '"S ', '"E '):
                    continue
                tail.append(l.rstrip("\n"))
        st["log"] = tail
        txt = "\n".join(tail)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt.replace(",", ",")) or re.search(r"([\d,]+) states generated, ([\d,]+) distinct", txt)
        if m:
            st["transitions"] = int(m.group(1).replace(",", ""))
            st["states"] = int(m.group(2).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", txt)
        if m: st["depth"] = int(m.group(1))
        return st
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def spec_hash(module):
    """Of a module and those it extends or instantiates."""
    todo, fs = [module], set()
    while todo:
        m = todo.pop()
        p = os.path.join(SPEC, m + ".tla")
        if p in fs or not os.path.exists(p): continue
        fs.add(p)
        with open(p) as f: txt = f.read()
        for l in re.findall(r"^\s*EXTENDS\s+(.*)$", txt, re.M): todo += [x.strip() for x in l.split(",")]
        todo += re.findall(r"\bINSTANCE\s+(\w+)", txt)
    return hash_files(list(fs) + [os.path.join(SPEC, module + ".cfg")])


def graph(model, timeout=None, workers=JOBS):
    """The transition graph of MC_<model>, from TLC; the invariants are checked on the way."""
    module = "MC_" + model
    d = os.path.join(BUILD, "graph")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s.txt" % (model, spec_hash(module)))
    js = out + ".json"
    if not os.path.exists(js):
        tmp = out + ".tmp%d" % os.getpid()
        st = tlc(module, out=tmp, timeout=timeout, workers=workers)
        if st["rc"] != 0 or "No error has been found" not in "\n".join(st["log"]):
            raise Problem("TLC does not accept %s:\n%s" % (module, "\n".join([x for x in st["log"] if x[:3] not in ('"S ', '"E ', '"T ')][-30:])))
        st.pop("log")
        for f in os.listdir(d):          # of an older version of the specification
            if re.fullmatch(re.escape(model) + r"-[0-9a-f]{16}\.txt(\.json)?", f): os.remove(os.path.join(d, f))
        os.replace(tmp, out)
        with open(js + ".tmp", "w") as f: json.dump(st, f)
        os.replace(js + ".tmp", js)
    with open(js) as f: st = json.load(f)
    st["file"] = out
    return st


def walks(model, num, depth, seed, timeout=None):
    """Long random behaviours of MC_<model> (TLC's simulation mode), all their transitions in one file."""
    module = "MC_" + model
    d = os.path.join(BUILD, "graph")
    os.makedirs(d, exist_ok=True)
    name = "%s-%d-%d-%d" % (model, num, depth, seed)
    out = os.path.join(d, "%s-%s.txt" % (name, spec_hash(module)))
    js = out + ".json"
    if not os.path.exists(js):
        tmp = out + ".tmp%d" % os.getpid()
        def one(i):
            f = "%s.%d" % (tmp, i)
            st = tlc(module, out=f, timeout=timeout, workers=1, extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed * 1000 + i)], java=("-Xmx1g",))
            return f, st
        with ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(one, range(8)))
        st = dict(module=module, states=0, transitions=0)
        try:
            for f, r in rs:
                txt = "\n".join(r["log"])
                m = re.search(r"number of states generated: ([\d,]+)", txt)
                if r["rc"] != 0 or not m or "rror" in txt: raise Problem("TLC does not accept %s:\n%s" % (module, "\n".join(r["log"][-30:])))
                st["states"] += int(m.group(1).replace(",", ""))
            st["transitions"] = st["states"]
            with open(tmp, "wb") as o:
                for f, _ in rs:
                    with open(f, "rb") as i: shutil.copyfileobj(i, o)
        finally:
            for f, _ in rs:
                if os.path.exists(f): os.remove(f)
        for f in os.listdir(d):
            if re.fullmatch(re.escape(model) + r"-\d+-\d+-\d+-[0-9a-f]{16}\.txt(\.json)?", f): os.remove(os.path.join(d, f))
        os.replace(tmp, out)
        with open(js + ".tmp", "w") as f: json.dump(st, f)
        os.replace(js + ".tmp", js)
    with open(js) as f: st = json.load(f)
    st["file"] = out
    return st


class Check:
    """Collects what one property's check did, and gives the verdict."""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "parts": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def part(self, name, **kw):
        self.cov["parts"].append(dict(name=name, **kw))

    def sample(self, s, cap=12):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    def violation(self, what, **data):
        n = len(self.violations) + 1
        path = os.path.join(BUILD, "replay", "%s-%d.json" % (self.prop, n))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, **data), f, indent=1)
        self.violations.append((what, path))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, path in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what)
        if not self.violations:
            print("%s: held on everything explored (%.1f s)" % (self.prop, time.time() - self.t0))
        return 1 if self.violations else 0


def known_findings(check):
    """Prints a KNOWN-FINDING line for each listed finding of this property that is still there."""
    todo = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(\w+) ([\w-]+): (.*)", l)
            if m and m.group(1) == check.prop: todo.append((m.group(2), m.group(3)))
    if not todo: return
    b = compile_one("known.cpp", "known", ["-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
    for key, what in todo:
        r = subprocess.run([b, key], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if r.returncode: check.known.append("%s: %s" % (key, what))
