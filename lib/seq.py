"""Sequential properties: every transition of Ownership.tla, taken through the real code."""
import os, json, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Problem, log

FACETS = dict(alive=1, count=2, owner=4, value=8, weak=16, mem=32, hook=64, exc=128, crash=256, sft=512, lck=1024, alloc=2048, keep=4096)
def mask(s): return sum(FACETS[x] for x in s.split())
POLICIES = {0: "xmem::shared_ptr", 1: "xmem::local_shared_ptr", 2: "tracking control block, local counts",
            3: "tracking control block, atomic counts", 4: "std::shared_ptr with xstd", 5: "xmem::shared_ptr to arrays"}
SHAPES = {1: "objects of natural alignment, shared-from base first", 2: "shared-from as a virtual base"}
for s in SHAPES:
    for q in range(4): POLICIES[10 * s + q] = POLICIES[q] + ", " + SHAPES[s]


def replayer(policy, ubsan=False):
    flags = ["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address" + (",undefined" if ubsan else ""), "-DPOLICY=%d" % (policy % 10), "-DSHAPE=%d" % (policy // 10)]
    if ubsan: flags += ["-fno-sanitize-recover=all"]
    return vf.compile_one("replay.cpp", "replay%d%s" % (policy, "u" if ubsan else ""), flags)


def model_graph(m, seed):
    """All transitions of MC_<m>, or for "walk:NUM:DEPTH" those of random walks."""
    if ":" not in m: return vf.graph(m, workers=4)
    m, num, depth = m.split(":")
    return vf.walks(m, int(num), int(depth), seed)


class Part:
    def __init__(self, models, policies=(0, 1, 2, 3), report="alive", stop="alive crash mem", ops="", always="", reent=False, fault=False, tear=False, passes=1):
        self.__dict__.update(locals())


def run(check, parts, ubsan=None):
    """Replays every transition of the models of each part."""
    ubsan = check.thorough if ubsan is None else ubsan
    models = sorted({m for p in parts for m in p.models})
    pols = sorted({q for p in parts for q in p.policies})
    models.sort(key=lambda m: min(i for i, p in enumerate(parts) if m in p.models))
    with ThreadPoolExecutor(vf.JOBS) as ex, ThreadPoolExecutor(3) as tx:     # TLC uses several cores itself
        bins = {q: ex.submit(replayer, q, ubsan) for q in pols}
        graphs = {m: tx.submit(model_graph, m, check.seed) for m in models}
        broken = [f.exception() for f in bins.values() if f.exception()]
        bins = {q: f.result() for q, f in bins.items() if not f.exception()}
        runs = []
        try:
            with ThreadPoolExecutor(3) as rx:
                runs = [(p, m, q, rx.submit(replay, check, p, m, q, bins[q], graphs[m])) for p in parts for m in p.models for q in p.policies if q in bins]
                try:
                    counted = set()
                    for p, m, q, r in runs:
                        g = graphs[m].result()
                        if m not in counted:
                            counted.add(m)
                            check.cov["states"] += g["states"]
                            check.cov["transitions"] += g["transitions"]
                        digest(check, p, m, q, r.result(), g)
                        if len(check.violations) >= 10: return
                finally:
                    for r in runs: r[3].cancel()
        finally:
            for f in graphs.values(): f.cancel()
    if broken and not check.violations: raise broken[0]


def limits(check): return 1500 if check.thorough else 400

def replay(check, p, m, q, binary, graph):
    g = graph.result()
    limit = limits(check)
    cmd = [binary, "--graph", g["file"], "--report", str(mask(p.report)), "--stop", str(mask(p.stop)), "--workers", str((vf.JOBS + 1) // 2),
           "--passes", str(1 if ":" in m else p.passes * (3 if check.thorough and g["transitions"] < 600000 else 1)), "--seed", str(check.seed), "--maxfail", "5", "--limit", str(limit)]
    if ":" in m: cmd += ["--cap", "4000"]
    if p.ops: cmd += ["--ops", ",".join(p.ops.split())]
    if p.always: cmd += ["--always", str(mask(p.always))]
    if p.reent: cmd += ["--reent"]
    if p.fault: cmd += ["--fault"]
    if p.tear: cmd += ["--tear"]
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit + 300)


def digest(check, p, m, q, r, g):
    limit = limits(check)
    done = None
    for l in r.stdout.splitlines():
        if l.startswith("FAIL "):
            f = json.loads(l[5:])
            check.violation("%s, %s: after %s: %s" % (POLICIES[q], m, "dropping everything" if f["teardown"] else f["call"], f["msg"]),
                            kind="sequential", model=m, policy_id=q, **f)
        elif l.startswith("DONE "):
            done = json.loads(l[5:])
        elif l.startswith("SAMPLE "):
            check.sample("%s on %s: %s" % (m, POLICIES[q], l[7:]))
    if not done:
        raise Problem("replayer failed on %s: rc %s\n%s" % (m, r.returncode, (r.stdout + r.stderr)[-2000:]))
    if not done["failures"] and not done["foreign"] and not done["unconfirmed"]:
        if done["covered"] < done["edges"] and done["seconds"] < limit - 5:
            raise Problem("replayer left transitions of %s unvisited: %s" % (m, done))
    check.cov["traces_validated_against_impl"] += done["walks"]
    check.part("%s on %s" % (m, POLICIES[q]), spec_states=done["states"], spec_transitions=done["edges"],
               transitions_taken_in_real_code=done["covered"], calls_executed=done["steps"], walks=done["walks"],
               compared=p.report, failures=done["failures"], other_properties=done["foreign"], seconds=done["seconds"])
