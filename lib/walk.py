"""Properties whose specification's transitions are taken through harness/walk.hpp."""
import json, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf

def build(src, name, flags, std="c++17"):
    return vf.compile_one(src, name, ["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + list(flags), std=std)

def run(check, todo, passes=3, limit=400):
    """todo: (model, source, name, flags, what)"""
    with ThreadPoolExecutor(vf.JOBS) as ex, ThreadPoolExecutor(3) as tx:
        bins = {n: ex.submit(build, src, n, fl) for _, src, n, fl, _ in todo}
        graphs = {m: tx.submit(vf.graph, m, workers=4) for m in sorted({t[0] for t in todo})}
        graphs = {m: g.result() for m, g in graphs.items()}
        broken = [f.exception() for f in bins.values() if f.exception()]
        bins = {n: f.result() for n, f in bins.items() if not f.exception()}
    for g in graphs.values():
        check.cov["states"] += g["states"]; check.cov["transitions"] += g["transitions"]
    for m, src, name, flags, what in todo:
        if name not in bins: continue
        cmd = [bins[name], "--graph", graphs[m]["file"], "--workers", str(vf.JOBS), "--passes", str(passes), "--seed", str(check.seed), "--limit", str(limit)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit + 120)
        done = None
        for l in r.stdout.splitlines():
            if l.startswith("FAIL "):
                f = json.loads(l[5:])
                check.violation("%s, %s: %s: %s" % (what, m, f["call"], f["msg"]), kind="walk", model=m, src=src, name=name, flags=list(flags), **f)
            elif l.startswith("DONE "): done = json.loads(l[5:])
        if not done: raise vf.Problem("%s failed on %s: rc %s\n%s" % (name, m, r.returncode, (r.stdout + r.stderr)[-2000:]))
        if not done["failures"] and done["unconfirmed"]: raise vf.Problem("failures on %s that do not repeat: %s" % (m, done))
        if not done["failures"] and done["covered"] < done["edges"] and done["seconds"] < limit - 5: raise vf.Problem("transitions of %s left: %s" % (m, done))
        check.cov["traces_validated_against_impl"] += done["walks"]
        check.part("%s, %s" % (what, m), spec_states=done["states"], spec_transitions=done["edges"], transitions_taken_in_real_code=done["covered"],
                   calls_executed=done["steps"], walks=done["walks"], failures=done["failures"], seconds=done["seconds"])
    if broken and not check.violations: raise broken[0]
