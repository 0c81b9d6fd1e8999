"""What each property's check consists of."""
import vf, seq, walk, conc
from seq import Part
CHECKS = {}
def check(prop):
    def reg(f):
        CHECKS[prop] = f
        return f
    return reg

SEQ_ASSUME = ["transitions beyond the bounds of the models (numbers of pointers and objects) behave like those within",
              "std::shared_ptr of the standard library is correct", "g++ 13 with AddressSanitizer"]
def with_deeper(c, parts, deeper):
    return parts + (deeper if c.thorough else [])
def walk_(c, name="walk"):      # random behaviours of a model too large to enumerate
    return ["%s:%s" % (name, "100:2000" if c.thorough else "6:800")]

@check("C01")
def c01(c):
    r = dict(report="alive crash", stop="alive crash")
    seq.run(c, with_deeper(c, [Part("core kinds mem".split(), **r), Part("weak tybase tyconst alias unqmem reent sfdtor sf".split(), policies=(0, 2), **r),
        Part("kinds sf mem".split(), policies=(11, 20), **r), Part(["arr"], policies=(5,), **r), Part(walk_(c), policies=(0, 1, 2, 3) if c.thorough else (0,), **r)],
        [Part("weak tybase tyconst alias unqmem reent sfdtor sf".split(), policies=(1, 3), **r), Part("core3  types types2 kinds3 mem3 reentmem unqmem3".split(), **r)]))
    c.assumptions += SEQ_ASSUME

@check("C02")
def c02(c):
    r = dict(report="count owner", stop="alive crash")
    seq.run(c, with_deeper(c, [Part("core kinds alias".split(), **r), Part("weak tybase tyconst mem sf unqmem".split(), policies=(0, 2), **r),
        Part(["arr"], policies=(5,), **r), Part(walk_(c), policies=(0, 1, 2, 3) if c.thorough else (0,), **r)],
        [Part("weak tybase tyconst mem sf unqmem".split(), policies=(1, 3), **r), Part("core3 weak3  types types2 kinds3 mem3".split(), **r)]))
    c.assumptions += SEQ_ASSUME

@check("C03")
def c03(c):
    r = dict(report="value owner", stop="alive crash")
    seq.run(c, with_deeper(c, [Part("core kinds tybase tyconst".split(), **r), Part("alias mem unqmem sf".split(), policies=(0, 2), **r),
        Part("kinds tybase".split(), policies=(11,), **r), Part(["arr"], policies=(5,), **r), Part(walk_(c), policies=(0, 1, 2, 3) if c.thorough else (1,), **r)],
        [Part("alias mem unqmem sf".split(), policies=(1, 3), **r), Part("core3  types types2 kinds3 mem3".split(), **r)]))
    c.assumptions += SEQ_ASSUME

WEAKOPS = "LokC LokA wDef wCpyC wMovC wFroC wAliC wAlsC wSfrC wCpyA wMovA wFroA wRst wSwp wDes wBulk"
@check("C04")
def c04(c):
    r = dict(report="weak owner alive value crash", stop="alive crash", ops=WEAKOPS, always="weak")
    seq.run(c, with_deeper(c, [Part("weak core alias".split(), **r), Part("sf kinds mem".split(), policies=(0, 2), **r),
        Part(["arr"], policies=(5,), **r), Part(walk_(c), policies=(0, 1, 2, 3) if c.thorough else (0,), **r)],
        [Part("sf kinds mem".split(), policies=(1, 3), **r), Part("core3 weak3".split(), **r)]))
    c.assumptions += SEQ_ASSUME

@check("C05")
def c05(c):
    r = dict(report="mem crash", stop="alive crash mem")
    seq.run(c, with_deeper(c, [Part("core kinds mem unqmem weak".split(), **r), Part("tybase tyconst alias sf sfdtor reent fault".split(), policies=(0, 2), **r),
        Part("kinds mem unqmem sf fault".split(), policies=(10, 21), **r), Part(["arr"], policies=(5,), **r), Part(walk_(c), policies=(0, 1, 2, 3) if c.thorough else (0,), **r)],
        [Part("tybase tyconst alias sf sfdtor reent fault".split(), policies=(1, 3), **r), Part("core3 weak3  types types2 kinds3 mem3 reentmem unqmem3".split(), **r)]), ubsan=True)
    walk.run(c, [("storage", "alloc.cpp", "alloc", [], "storage from the default allocator")], passes=20 if c.thorough else 3)
    c.assumptions += SEQ_ASSUME

SFOPS = "SfrC SfrA SfrU wSfrC OCpy"
@check("C11")
def c11(c):
    r = dict(report="alive count owner value weak sft crash exc", stop="alive crash", ops=SFOPS, always="sft", reent=True)
    seq.run(c, with_deeper(c, [Part("sf sfdtor fault".split(), **r), Part("sf sfdtor".split(), policies=(10, 20, 23), **r), Part(walk_(c), policies=(0, 1, 2, 3, 21) if c.thorough else (0,), **r)], [Part(["sfdtor3"], **r)]))
    c.assumptions += SEQ_ASSUME

@check("C13")
def c13(c):
    r = dict(report="hook", stop="alive crash", policies=(2, 3))
    seq.run(c, with_deeper(c, [Part("core weak tybase tyconst kinds mem alias unqmem reent sf sfdtor fault".split(), **r), Part(walk_(c), **r)],
        [Part("core3 weak3  types types2 kinds3 mem3 reentmem unqmem3 sfdtor3".split(), **r)]))
    conc.run(c, [conc.Part("own lock common storage", "track", facets="hook crash", maxexec=4000)])
    c.assumptions += SEQ_ASSUME + CONC_ASSUME

@check("C14")
def c14(c):
    r = dict(report="alive count owner value weak mem exc crash hook", stop="alive crash mem", ops="fMkC fRawC fUnqC fMkA fRawA fUnqA", fault=True, passes=10)
    seq.run(c, [Part(["fault"], **r), Part(["fault"], **dict(r, policies=(11, 20), passes=4)), Part(walk_(c), policies=(0, 1, 2, 3) if c.thorough else (0,), **r)])
    c.assumptions += SEQ_ASSUME

@check("C15")
def c15(c):
    r = dict(report="alive count owner value lck mem crash", stop="alive crash mem", reent=True)
    seq.run(c, with_deeper(c, [Part("mem reent unqmem sfdtor".split(), **r), Part("mem reent".split(), policies=(10, 20), **r), Part(walk_(c), policies=(0, 1, 2, 3) if c.thorough else (0, 2), **r)], [Part("mem3 reent3 reentmem unqmem3 sfdtor3".split(), **r)]))
    c.assumptions += SEQ_ASSUME

@check("C18")
def c18(c):
    r = dict(report="alive count owner value weak crash", stop="alive crash", ops="AliC AliA MkaC CasC CasA wAliC wAlsC")
    seq.run(c, with_deeper(c, [Part("tybase tyconst alias core weak".split(), **r), Part("tybase alias".split(), policies=(10, 20), **r), Part(walk_(c), policies=(0, 1, 2, 3) if c.thorough else (0,), **r)], [Part("types types2 weak3 core3".split(), **r)]))
    c.assumptions += SEQ_ASSUME

@check("C20")
def c20(c):
    r = dict(report="alloc", stop="alive crash mem")
    seq.run(c, with_deeper(c, [Part("core kinds alias".split(), **r), Part("weak tybase tyconst mem sf unqmem fault reent sfdtor".split(), policies=(0, 2), **r),
        Part(["xstd"], policies=(4,), **r), Part(["arr"], policies=(5,), **r), Part(walk_(c), policies=(0, 1, 2, 3) if c.thorough else (0,), **r)],
        [Part("weak tybase tyconst mem sf unqmem fault reent sfdtor".split(), policies=(1, 3), **r), Part("core3 weak3 types types2 kinds3 mem3 reentmem".split(), **r)]))
    walk.run(c, [("uq_" + m, "uptr.cpp", "uptra%d" % k, ["-DKIND=%d" % k, "-DALLOC"], "unique_ptr, " + w) for m, k, w in UQ], passes=2)
    c.assumptions += SEQ_ASSUME

@check("C21")
def c21(c):
    r = dict(report="keep alive count owner value weak mem hook exc crash", stop="alive crash mem keep")
    seq.run(c, with_deeper(c, [Part("keep keepre keepf".split(), **r), Part("keep keepf".split(), policies=(11, 20), **r),
        Part(walk_(c), policies=(0, 1, 2, 3) if c.thorough else (2,), **r)], [Part(["keep3"], **r)]))
    c.assumptions += SEQ_ASSUME

_SEQ = ("TLA+ (Ownership.tla) checked with TLC; every transition of its graph replayed through the real code",
  "Exhaustive within the models' bounds (2-4 roots of each kind, 1-3 objects): each transition TLC finds is executed in the real headers, from a state reached by real calls, and the projected state compared. Trusts the projection in harness/replay.cpp, TLC, the compiler and AddressSanitizer.")
NOTES = {p: _SEQ for p in "C01 C02 C03 C04 C05 C11 C13 C14 C15 C18 C20 C21".split()}

# ---------------------------------------------------------------- concurrent
CONC_ASSUME = ["interleavings at atomic operations (and locks) decide; plain accesses that do not race commute, races are looked for in each execution",
               "programs beyond the bounds (2-3 threads, 1-3 calls each) behave like those within; schedules beyond the preemption bound are sampled",
               "g++ 13's instrumentation by -fsanitize=thread reports every access of the headers"]

@check("C06")
def c06(c):
    f = "spec mem leak crash stuck race"
    conc.run(c, [conc.Part("own lock", maxexec=6000, facets=f), conc.Part("common", maxexec=3000, facets=f)])
    c.assumptions += CONC_ASSUME

@check("C07")
def c07(c):
    f = "spec mem leak crash stuck race"
    conc.run(c, [conc.Part("lock", maxexec=16000, bound=4, facets=f), conc.Part("common", maxexec=3000, facets=f)])
    c.assumptions += CONC_ASSUME

@check("C09")
def c09(c):
    conc.run(c, [conc.Part("storage", facets="spec mem leak crash race", maxexec=8000)])
    c.assumptions += CONC_ASSUME

@check("C10")
def c10(c):
    conc.run(c, [conc.Part("reent", facets="stuck crash", maxexec=8000), conc.Part("storage", facets="stuck crash", maxexec=2500),
                 conc.Part("reent storage", "std", facets="stuck crash", maxexec=2500)])
    c.assumptions += CONC_ASSUME + ["a call is stuck when thousands of operations by all unfinished threads in turn change no atomic variable"]

@check("C16")
def c16(c):
    conc.run(c, [conc.Part("count", maxexec=20000, bound=4)])
    refcounts(c)
    c.assumptions += CONC_ASSUME + ["counts far from 1 are written into the object, if count() then reads them back"]

def refcounts(c):
    import subprocess, json
    g = vf.graph("refcount")
    c.cov["states"] += g["states"]; c.cov["transitions"] += g["transitions"]
    b = vf.compile_one("rc.cpp", "rc", ["-g1", "-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"])
    r = subprocess.run([b, g["file"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    done = None
    for l in r.stdout.splitlines():
        if l.startswith("FAIL "): c.violation(l[5:], cmd=[b, g["file"]])
        if l.startswith("DONE "): done = json.loads(l[5:])
    if not done and r.returncode: c.violation("the counts' operations crash: %s" % r.stdout[-300:], cmd=[b, g["file"]])
    elif not done or not done["taken"]: raise vf.Problem("no transition of RefCount.tla taken: " + r.stdout[-1000:])
    else: c.part("sequential counts of all sizes", **done)

@check("C08")
def c08(c):
    f = "race"
    traces = conc.run(c, [conc.Part("own lock common storage reent", facets=f, maxexec=4000, traces=2), conc.Part("count", facets=f, maxexec=1000)])
    c.assumptions += CONC_ASSUME + ["atomic reads see the latest write (a weaker memory could yield older values to relaxed loads); races are judged by the C++ happens-before relation all the same"]
    # HB.tla judges a sample of the executions again
    ts = [t[2] for t in traces]
    step = max(1, len(ts) // (6000 if c.thorough else 1500))
    ts = ts[::step]
    if not ts: return
    verdict, st = conc.hb(ts)
    c.cov["states"] += st["states"]; c.cov["transitions"] += st["transitions"]
    differ = [i for i, (v, t) in enumerate(zip(verdict, ts)) if bool(v) != bool(t["race"])]
    if differ:
        t = ts[differ[0]]
        raise vf.Problem("HB.tla and the explorer disagree on %d of %d traces: %s" % (len(differ), len(ts), t))
    weak, st = conc.hb([conc.weakened(t) for t in ts])
    if not any(weak): raise vf.Problem("HB.tla sees no race even without any memory order")
    c.part("recorded executions judged by HB.tla", traces=len(ts), events=sum(len(t["events"]) for t in ts), racing=sum(map(bool, verdict)),
           of_these_racing_if_everything_were_relaxed=sum(map(bool, weak)))

@check("C17")
def c17(c):
    r = dict(report="alive count owner value weak mem exc crash", stop="alive crash mem", policies=(4,))
    seq.run(c, [Part("xstd xstdsf".split() + walk_(c, "walkx"), **r)])
    f = "spec mem leak crash stuck race"
    conc.run(c, [conc.Part("storage xlock reent", "std", facets=f, maxexec=2500), conc.Part("xsto xreent", "std20", facets="spec mem leak crash stuck", maxexec=1000)])
    c.assumptions += SEQ_ASSUME + CONC_ASSUME + ["libstdc++'s own atomic<shared_ptr> as C++20 storage is not checked for races"]

_CONC = ("TLA+ (Conc.tla) checked with TLC; schedules of the real code enumerated by a controlled scheduler and each execution's calls, returns, destructions and releases checked against the automaton TLC prints",
  "Every schedule with up to 2-3 preemptions of hundreds of small programs (2-3 threads), and random ones beyond, run in the real headers; each is accepted or rejected by the specification. Trusts harness/mc (scheduler, projection), the compiler's instrumentation, TLC.")
NOTES.update({p: _CONC for p in "C06 C07 C09 C10 C16".split()})
NOTES["C08"] = ("TLA+ (HB.tla, Conc.tla) checked with TLC; the happens-before relation over executions of the real code under a controlled scheduler, recorded traces validated by TLC",
  "Every explored schedule is judged for data races under the C++ happens-before relation, from the memory orders the compiled headers really use; TLC validates a sample of the traces against HB.tla, agreeing with the explorer on each. Executions are sequentially consistent interleavings.")
NOTES["C17"] = (_SEQ[0] + "; " + _CONC[0], _SEQ[1] + " " + _CONC[1])

# ---------------------------------------------------------------- unique pointers and creation
UQ = [("val", 0, "value deleter"), ("arr", 1, "array with a value deleter"), ("ref", 2, "deleter by reference"), ("ref", 3, "deleter by const reference"),
      ("fn", 4, "function pointer"), ("def", 5, "default_delete"), ("def", 6, "default_delete, to const"), ("darr", 7, "default_delete of arrays")]
@check("C12")
def c12(c):
    sfx = ["", "_re"] + (["_deep"] if c.thorough else [])
    walk.run(c, [("uq_" + m + s, "uptr.cpp", "uptr%d" % k, ["-DKIND=%d" % k], "unique_ptr, " + w) for s in sfx for m, k, w in UQ], passes=6 if c.thorough else 2)
    c.assumptions += SEQ_ASSUME[:1] + SEQ_ASSUME[2:] + ["a deleter that was moved from is not relied on", "a destructor does not reset the very pointer that is being destroyed or assigned"]
NOTES["C12"] = ("TLA+ (Unique.tla) checked with TLC; every transition of its graph taken through the real code",
  "Exhaustive within the models' bounds (3 pointers, 3 objects, 2 deleters, eight kinds of unique_ptr, destructors that reset pointers): each transition TLC finds is executed in the real headers and deletions (deleter, object, order), addresses, deleters and comparisons are compared. Trusts harness/uptr.cpp, TLC, the compiler and sanitizers.")

@check("C19")
def c19(c):
    todo = []
    MO = ("-DNOMVONLY", "arguments that can only be moved are not accepted")
    CO = ("-DNOCONST", "constant objects cannot be created (make_shared<const T>, make_shared_ptr of a constant lvalue, const T with shared-from)")
    for model, t, odd, what in (("cr_tok", 0, [], "counting class"), ("cr_tok", 0, ["-DODD"], "class with its own operator new and operator&"),
                                ("cr_int", 1, [], "int"), ("cr_int", 2, [], "plain struct")):
        first = done = None
        # what does not compile is left out, one thing after the other, and reported
        for less in ((), (MO,), (CO,), (CO, MO)):
            fl = ["-DTYPE=%d" % t] + odd + [x[0] for x in less]
            try: walk.build("create.cpp", "create%d%s" % (t, "odd" if odd else ""), fl)
            except vf.Problem as p: first = first or p
            else:
                done = fl
                break
        if done is None and odd:
            c.violation("objects cannot be created: " + what, text=str(first)[-1500:])
            continue
        if done is None: raise first
        for x in less:
            if x is CO: c.violation(x[1] + ": " + what, text=str(first)[-1500:])
        todo.append((model, "create.cpp", "create%d%s" % (t, "odd" if odd else ""), done, "creation, " + what))
    walk.run(c, todo, passes=100 if c.thorough else 12)
    c.assumptions += SEQ_ASSUME[2:] + ["the compiler elides the copies C++17 says it does"]
NOTES["C19"] = ("TLA+ (Create.tla) checked with TLC; every transition of its graph taken through the real code",
  "Every creation function with every argument category, in every state of two variables and two other pointers within the model: constructions (which constructor, how many), values, sources, owners and memory are compared. Trusts harness/create.cpp, TLC, the compiler and sanitizers.")
