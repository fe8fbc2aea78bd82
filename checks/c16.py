"""C16: the extension type under AddressSanitizer and UBSan with malformed operation sequences; reference-count monitor on the plain build."""
import gc, json, os, random, re, subprocess, sys
import numpy as np
from array import array
from vlib import build, runs
from vlib.check import forked

RULE = "one case = one sequence of mostly malformed operations in the sanitized build, or one operation repeated thousands of times with all reference counts watched; all non-trivial"
LEVEL = "exploration"
TECHNIQUE = "compiler sanitizers (ASan+UBSan build of the extension, fuzzed with malformed operations) and a reference-count / allocation monitor"
NOTE = ("Out-of-bounds accesses, use after free and undefined behaviour are detected on the executions made; sequences are sampled by seed. "
        "Leaks are detected per operation, including the failing ones, from reference counts and live memory blocks.")
ASSUMPTIONS = ["Python and numpy themselves are not instrumented; their memory comes from malloc, so that ASan sees its bounds"]
ENVS = dict(PYTHONMALLOC="malloc", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=1:soft_rss_limit_mb=4000",
            UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=67")


def lib(name):
    return subprocess.check_output(["gcc", "-print-file-name=" + name], text=True).strip()


def fuzz(case):
    trail = os.path.join(case["scratch"], "trail-%d" % case["seed"])
    env = dict(os.environ, LD_PRELOAD=lib("libasan.so") + ":" + lib("libubsan.so"), PYTHONPATH=case["overlay"] + os.pathsep + build.ROOT, **ENVS)
    try:
        p = subprocess.run([sys.executable, "-m", "vlib.lpfuzz", str(case["seed"]), str(case["n"]), trail], env=env, cwd=case["scratch"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=500)
    except subprocess.TimeoutExpired:
        return dict(trouble="budget: fuzzing did not end", bad=[], n={})
    m = re.search(r"^DONE (.*)$", p.stdout, re.M)
    if p.returncode == 0 and m:
        st = json.loads(m[1])
        return dict(trouble=None, bad=[], n={k: v for k, v in st.items() if k != "kinds"}, kinds=st["kinds"], trace=case["seed"])
    tr = open(trail).read() if os.path.exists(trail) else ""
    what = re.search(r"ERROR: AddressSanitizer: (\S+)|runtime error: ([^\n]*)|(SYSTEMERROR [^\n]*)", p.stdout)
    kind = "asan-" + what[1] if what and what[1] else "undefined-behaviour" if what and what[2] else "system-error" if what else "crash"
    if "MemoryError" in p.stdout and not what:
        return dict(trouble="budget: out of memory", bad=[], n={})
    return dict(trouble=None, bad=[(kind, "exit status %d after %s\n%s" % (p.returncode, tr.split("\n")[0] + ": " + " ".join(tr.split("\n")[1:]), p.stdout[-1800:]))],
                n=dict(sequences=1, operations=len(tr.split("\n"))), trace=case["seed"])


def leak(case):
    """every operation, good and bad, repeated; blocks in use and reference counts of what it touches must not move"""
    import copy, pickle
    from cpnest import parameter
    from cpnest.parameter import LivePoint
    bad = []
    names = ["aa%d" % i for i in range(4)]
    other = ["bb", "cc"]
    vals = array("d", [1.5, 2.5, -3.5, 4.5])
    short = array("d", [1.25])
    p, q, t = LivePoint(names, d=vals), LivePoint(names, d=vals), LivePoint(other)
    s = LivePoint(names, d=short)
    unk = "no such name " + str(case["seed"])
    key = names[2]
    obj = object()
    k = 1234567.891
    state = p.__getstate__()
    dumped = {pr: pickle.dumps(p, pr) for pr in (2, 4)}
    broken = LivePoint(names)
    broken.names = [None, 3, obj, unk]
    lst = list(names)
    shrunk = LivePoint(lst)
    del lst[2:]
    novals = LivePoint(names, d=array("d"))
    nonenames = LivePoint(names)
    ok = {}

    def expect(*exc):
        def deco(f):
            def g():
                try:
                    f()
                except Exception:
                    pass
            return g
        return deco
    ops = dict(
        make=lambda: LivePoint(names), make_d=lambda: LivePoint(names, d=vals), make_kw=lambda: LivePoint(names, d=vals, logL=k, logP=k), make_short=lambda: LivePoint(names, d=short),
        make_bad=lambda: LivePoint(5), make_bad2=lambda: LivePoint(names, d=[1.0]), make_bad3=lambda: LivePoint(names, d=vals, logL="x"), make_none=lambda: LivePoint(None),
        make_str=lambda: LivePoint(names, d=array("u", "ab")),
        rebuild=lambda: parameter.rebuild_livepoint(names), rebuild_bad=lambda: parameter.rebuild_livepoint(obj),
        add=lambda: p + q, add_bad=lambda: p + t, add_foreign=lambda: p + obj, add_none=lambda: p + None, radd=lambda: obj + p,
        sub=lambda: p - q, sub_bad=lambda: p - t, sub_foreign=lambda: p - obj, sub_short=lambda: p - s, add_short=lambda: p + s,
        mul=lambda: p * k, mul_bad=lambda: p * obj, mul_str=lambda: p * "x", rmul=lambda: k * p, div=lambda: p / k, div0=lambda: p / 0.0, div_bad=lambda: p / obj,
        iadd=lambda: p.__iadd__(q), iadd_bad=lambda: p.__iadd__(t), iadd_short=lambda: q.__iadd__(s), isub=lambda: p.__isub__(q), isub_short=lambda: q.__isub__(s), isub_foreign=lambda: p.__isub__(obj),
        imul=lambda: q.__imul__(1.0), imul_bad=lambda: q.__imul__(obj), idiv=lambda: q.__itruediv__(1.0), idiv0=lambda: q.__itruediv__(0.0), idiv_bad=lambda: q.__itruediv__(obj),
        get=lambda: p[key], get_unknown=lambda: p[unk], get_type=lambda: p[obj], get_int=lambda: p[3], set=lambda: q.__setitem__(key, k), set_unknown=lambda: q.__setitem__(unk, k),
        set_type=lambda: q.__setitem__(key, obj), set_short=lambda: s.__setitem__(key, k), get_short=lambda: s[key], del_=lambda: p.__delitem__(key),
        get_shrunk=lambda: shrunk[key], set_shrunk=lambda: shrunk.__setitem__(key, k), str_shrunk=lambda: str(shrunk), arr_shrunk=lambda: shrunk.asnparray(),
        get_broken=lambda: broken[key], set_broken=lambda: broken.__setitem__(key, 1.0), str_broken=lambda: str(broken), arr_broken=lambda: broken.asnparray(),
        get_novals=lambda: novals[key], arr_novals=lambda: novals.asnparray(), mul_novals=lambda: novals * k, div_novals=lambda: novals / k, imul_novals=lambda: novals.__imul__(k),
        copy=lambda: p.copy(), copy2=lambda: copy.copy(p), deepcopy=lambda: copy.deepcopy(p), array=lambda: p.asnparray(), array_short=lambda: s.asnparray(),
        reduce=lambda: p.__reduce__(), getstate=lambda: p.__getstate__(), setstate=lambda: q.__setstate__(state), setstate_bad=lambda: q.__setstate__((1.0,)), setstate_bad2=lambda: q.__setstate__((1.0, 2.0, obj)),
        setstate_bad3=lambda: q.__setstate__(obj), setstate_none=lambda: q.__setstate__(None), dumps=lambda: pickle.dumps(p), loads=lambda: pickle.loads(dumped[4]), loads2=lambda: pickle.loads(dumped[2]),
        repr=lambda: repr(p), str=lambda: str(p), keys=lambda: p.keys(), len=lambda: len(p), eq=lambda: p == q, lt=lambda: p < q, hash=lambda: hash(p), iter=lambda: list(p),
        get_values=lambda: p.values, set_values=lambda: setattr(q, "values", vals), set_values_bad=lambda: setattr(q, "values", obj), get_names=lambda: p.names,
        set_names=lambda: setattr(q, "names", names), set_names_bad=lambda: setattr(q, "names", obj), set_dim=lambda: setattr(q, "dimension", 4), set_dim_bad=lambda: setattr(q, "dimension", -1),
        get_dim=lambda: q.dimension, bounds=lambda: setattr(q, "bounds", names), bounds_bad=lambda: setattr(q, "bounds", obj), get_bounds=lambda: q.bounds, logl=lambda: setattr(q, "logL", k), logl_bad=lambda: setattr(q, "logL", obj),
        get_logl=lambda: q.logL)
    held = dict(names=names, other=other, vals=vals, short=short, p=p, s=s, t=t, unk=unk, key=key, obj=obj, k=k, state=state, n0=names[0], n1=names[1], n3=names[3], bb=other[0],
                cls=LivePoint, broken=broken, lst=lst, novals=novals, KeyError=KeyError, rebuild=parameter.rebuild_livepoint)
    R = case["reps"]
    n = dict(operations=0, raising_operations=0)
    for name, f in ops.items():
        raised = [0]

        def go(m):
            for _ in range(m):
                try:
                    f()
                except Exception:
                    raised[0] += 1
        gc.collect()
        go(200)
        gc.collect()
        gc.disable()
        grown = []
        for attempt in range(3):
            q.values = array("d", vals); q.names = names; q.bounds = None
            p.values = array("d", vals)
            rc0 = {h: sys.getrefcount(o) for h, o in held.items()}
            b0 = sys.getallocatedblocks()
            go(R)
            q.values = array("d", vals); q.names = names; q.bounds = None
            p.values = array("d", vals)
            b1 = sys.getallocatedblocks()
            rc1 = {h: sys.getrefcount(o) for h, o in held.items()}
            gc.collect()
            b2 = sys.getallocatedblocks()
            moved = {h: rc1[h] - rc0[h] for h in held if abs(rc1[h] - rc0[h]) > R // 4}
            grown.append((b2 - b0 if b2 - b0 > R // 4 else 0, moved))
            if not grown[-1][0] and not moved:
                break
        gc.enable()
        n["operations"] += (attempt + 1) * R
        n["raising_operations"] += raised[0]
        if all(g for g, m in grown) and len(grown) == 3:
            bad.append(("leak", "%s: %d memory blocks more after %d repetitions" % (name, grown[-1][0], R)))
        if all(m for g, m in grown) and len(grown) == 3:
            bad.append(("reference-count", "%s: reference counts moved by %s in %d repetitions" % (name, grown[-1][1], R)))
    return dict(trouble=None, bad=bad, n=dict(repeated_operations=n["operations"], repeated_failures=n["raising_operations"], watched_operations=len(ops)), trace=len(ops))


def rss(case):
    """memory that Python's own counters do not see: resident size over many repetitions (libc allocations of the arrays)"""
    import copy, pickle
    from cpnest.parameter import LivePoint
    names = ["x%d" % i for i in range(200)]
    p = LivePoint(names, d=array("d", [1.0] * 200))
    q = p.copy()
    dumped = pickle.dumps(p)

    def size():
        with open("/proc/self/statm") as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGESIZE")
    bad, done = [], 0
    for name, f in dict(copy=lambda: p.copy(), arithmetic=lambda: (p + q) * 2.0 - p / 3.0, pickle=lambda: pickle.loads(dumped), state=lambda: q.__setstate__(p.__getstate__()),
                        failing=lambda: LivePoint(names, d=array("d", [1.0])) + p, inplace=lambda: q.__iadd__(p), array=lambda: p.asnparray()).items():
        m = 300 if name == "array" else 4000

        def go():
            for _ in range(m):
                try: f()
                except Exception: pass
        go()
        a = size()
        for _ in range(4):
            go()
        b = size()
        done += 5 * m
        if b - a > 4 * m * 200:
            bad.append(("leak", "%s: %d bytes more after %d repetitions with 200 parameters" % (name, b - a, 4 * m)))
    return dict(trouble=None, bad=bad, n=dict(repeated_operations=done), trace=0)


def one(case):
    return dict(fuzz=fuzz, leak=leak, rss=rss)[case["kind"]](case)


def run(chk):
    ov = build.overlay("asan")
    r = random.Random(chk.seed * 256203221 + 16)
    base = dict(model=("-", {}), kw={}, scratch=chk.scratch, overlay=ov)
    cs = [dict(base, kind="leak", reps=4000 if chk.thorough else 1500, seed=1), dict(base, kind="rss", seed=2)]
    cs += [dict(base, kind="fuzz", n=12000 if chk.thorough else 1500, seed=r.randrange(1, 10 ** 6)) for _ in range(20 if chk.thorough else 7)]
    kinds = set()
    for case, v in runs.conclude(chk, forked(cs, one, timeout=600)):
        kinds |= set(v.get("kinds", {}))
        for i in range(v["n"].get("sequences", 1)):
            chk.case((case["kind"], case["seed"], i), True, sample=dict(kind=case["kind"], seed=case["seed"], observed=v["n"], kinds=v.get("kinds")) if not i else None)
    chk.extra["operation_kinds"] = sorted(kinds)
    for k, least in dict(sequences=5000, operations=50000, raised=10000, succeeded=10000, repeated_operations=50000, repeated_failures=20000).items():
        chk.require(k, least)
