"""Runs in its own interpreter (the sanitized build): random, mostly malformed operations on live points.

usage: python -m vlib.lpfuzz <seed> <sequences> <trail file>. The trail file holds the operations of the current sequence, so that a crash can be
replayed. Prints one json line with what was done. Any exception derived from Exception, except SystemError, is an acceptable answer.
"""
import copy, gc, io, json, os, pickle, pickletools, random, sys
from array import array

BIG = [0, 1, 2, 3, 7, 64, 1000, 4095, 4096, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]


class Odd:
    def __index__(self): raise ValueError("no index")
    def __float__(self): raise ValueError("no float")


class Mutator:
    """changes the list or the values while somebody looks at it"""
    def __init__(self, f): self.f = f
    def __eq__(self, other):
        self.f()
        return False
    def __hash__(self): return 5
    def __float__(self):
        self.f()
        return 1.5


class StrMutator(str):
    f = None
    def __eq__(self, other):
        if self.f: self.f()
        return False
    __hash__ = str.__hash__


def guard_none():
    """what follows None in memory is not None's: reading it as the fields of a live point is reported (nothing does in the interpreter itself)"""
    import ctypes
    try:
        poison = ctypes.CDLL(None).__asan_poison_memory_region
    except AttributeError:
        return 0
    poison.argtypes = [ctypes.c_void_p, ctypes.c_size_t]; poison.restype = None
    if id(type(None)) == id(None) + 32:
        poison(id(None) + 16, 16)
    poison(id(type(None)) + 8, 16)
    return 1


def main(seed, count, trail_path):
    from cpnest import parameter
    from cpnest.parameter import LivePoint
    guarded = guard_none()
    r = random.Random(seed)
    stats = dict(none_guarded=guarded, operations=0, raised=0, succeeded=0, malformed=0, sequences=0, kinds={})
    trail = open(trail_path, "w")
    sys.setrecursionlimit(2000)

    def names(k):
        return ["p%d" % i for i in range(k)]

    for s in range(count):
        trail.seek(0); trail.truncate()
        trail.write("seed %d sequence %d\n" % (seed, s))
        pts = []
        arrays = []

        def val():
            return r.choice([0.0, 1.5, -1e308, 1e308, float("inf"), float("nan"), 3, True, 10 ** 400, None, "x", 5e-324])

        def arr(k=None):
            t = r.choice("ddddddfilbBQu") if r.random() < 0.5 else "d"
            k = r.choice([0, 1, 2, 3, 5, 17, 100]) if k is None else k
            try:
                a = array(t, "a" * k if t == "u" else [1] * k)
            except Exception:
                a = array("d", [1.0] * k)
            arrays.append(a)
            return a

        def make():
            d = r.choice([0, 1, 2, 3, 5, 30])
            kind = r.randrange(8)
            nm = names(d)
            if kind == 1: nm = nm + [None, 3, b"x"]
            if kind == 2: nm = tuple(nm)
            if kind == 3: return LivePoint(nm, d=arr())
            if kind == 4: return LivePoint(nm, arr(), val(), val())
            if kind == 5: return LivePoint(r.choice([None, nm, 5, "abc", [nm], {}]), d=r.choice([None, arr(), [1.0] * d, 3]))
            if kind == 6: return parameter.rebuild_livepoint(r.choice([nm, None, [], 7]))
            if kind == 7: return LivePoint.__new__(LivePoint, nm) if r.random() < 0.7 else LivePoint.__new__(LivePoint)
            return LivePoint(nm, d=array("d", [float(i) for i in range(d)]))

        def op():
            k = r.randrange(40)
            p = r.choice(pts) if pts else None
            q = r.choice(pts + [None, 3.0, "x", object(), array("d", [1.0]), []]) if r.random() < 0.3 else (r.choice(pts) if pts else None)
            if k < 4 or p is None:
                return "make", lambda: pts.append(make())
            nm = r.choice(names(5) + ["", "zz", None, 3, "p%d" % r.randrange(50)])
            v = val()
            def f_values():
                x = arr()
                p.values = r.choice([x, x, x, None, [1.0], "abc"])
            def f_pop():
                for _ in range(r.choice([1, 3, 50])): p.values.pop()
            def f_resize():
                p.values.extend([1.0] * r.choice([1, 7, 5000]))
            def f_names():
                p.names = r.choice([names(r.choice([0, 1, 3, 9, 40])), None, (1, 2), [None] * 4, [Mutator(lambda: p.names.clear())] * 3])
            def f_shrink():
                del p.names[r.randrange(len(p.names) + 1):]
            def f_grow():
                p.names.extend(["q"] * r.choice([1, 5, 1000]))
            def f_dim():
                p.dimension = r.choice(BIG + [-1, None, 2.5, "3"])
            def f_bounds():
                p.bounds = r.choice([None, [], [1], "x", 3])
            def f_state():
                p.__setstate__(r.choice([(), (1.0,), (1.0, 2.0), (1.0, 2.0, arr()), (1.0, 2.0, arr(), 4), None, 3, (None, None, None), ("a", 1.0, arr()), [1.0, 2.0, [1, 2]], (1.0, 2.0, "abc"), (1.0, 2.0, b"\0" * 16)]))
            def f_pickle():
                b = bytearray(pickle.dumps(p, r.choice([0, 1, 2, 4, 5])))
                if r.random() < 0.6:
                    for _ in range(r.choice([1, 2, 4])):
                        if r.random() < 0.5: del b[r.randrange(len(b)):]
                        elif b:
                            # no new globals: only change numbers and lengths inside the data
                            i = r.randrange(len(b)); b[i] = r.choice([0, 1, 0xff, b[i] ^ 1])
                class U(pickle.Unpickler):
                    def find_class(self, m, n):
                        if m in ("cpnest.parameter", "array", "_codecs", "builtins") and n in ("rebuild_livepoint", "LivePoint", "array", "_array_reconstructor", "encode", "bytearray"):
                            return super().find_class(m, n)
                        raise pickle.UnpicklingError("refused")
                # the unpickler itself would reserve gigabytes for a large memo index
                big = False
                try:
                    for o, a, _ in pickletools.genops(bytes(b)):
                        big = big or "PUT" in o.name and a is not None and int(a) > 10 ** 5
                except Exception:
                    pass
                if len(b) < 100000 and not big:
                    z = U(io.BytesIO(bytes(b))).load()
                    if isinstance(z, LivePoint): pts.append(z)
            def f_reent():
                nmx = StrMutator("p1")
                nmx.f = lambda: (p.names.clear() if r.random() < .5 else setattr(p, "values", array("d")))
                r.choice([lambda: p[nmx], lambda: p.__setitem__(nmx, 2.0), lambda: p.__setitem__("p1", Mutator(lambda: p.values.__delitem__(slice(None))))])()
            def f_reent2():
                p.names.insert(0, Mutator(lambda: (p.names.clear(), setattr(p, "dimension", 5000))))
                r.choice([lambda: p["p1"], lambda: p.__setitem__("p0", 2.0), lambda: str(p), lambda: p.asnparray()])()
            def f_export():
                m = memoryview(p.values)
                try:
                    f_pop() if r.random() < .5 else f_resize()
                finally:
                    if r.random() < .7: m.release()
                    else: arrays.append(m)
            table = [
                ("get", lambda: p[nm]), ("set", lambda: p.__setitem__(nm, v)), ("add", lambda: pts.append(p + q)), ("sub", lambda: pts.append(p - q)),
                ("mul", lambda: pts.append(p * v)), ("rmul", lambda: v * p), ("div", lambda: pts.append(p / v)), ("iadd", lambda: p.__iadd__(q)), ("isub", lambda: p.__isub__(q)),
                ("imul", lambda: p.__imul__(v)), ("idiv", lambda: p.__itruediv__(v)), ("radd", lambda: q + p), ("rsub", lambda: q - p), ("rdiv", lambda: v / p),
                ("odd", lambda: p * Odd()), ("odd2", lambda: p.__setitem__("p0", Odd())),
                ("copy", lambda: pts.append(p.copy())), ("copy2", lambda: pts.append(copy.copy(p))), ("deepcopy", lambda: pts.append(copy.deepcopy(p))),
                ("len", lambda: len(p)), ("repr", lambda: repr(p)), ("str", lambda: str(p)), ("keys", lambda: p.keys()), ("array", lambda: p.asnparray()),
                ("reduce", lambda: p.__reduce__()), ("eq", lambda: (p == q, p != q, hash(p))), ("values=", f_values), ("pop", f_pop), ("resize", f_resize),
                ("names=", f_names), ("shrink", f_shrink), ("grow", f_grow), ("dim", f_dim), ("bounds", f_bounds), ("state", f_state), ("pickle", f_pickle),
                ("reentrant", f_reent), ("reentrant2", f_reent2), ("export", f_export), ("logs", lambda: setattr(p, r.choice(["logL", "logP"]), v)),
                ("drop", lambda: pts.remove(p)), ("delattr", lambda: delattr(p, r.choice(["logL", "values", "names", "dimension"]))),
                ("gc", lambda: gc.collect(0)), ("cmp", lambda: p < q), ("iter", lambda: list(p)), ("in", lambda: "p1" in p)]
            return r.choice(table)

        for _ in range(r.choice([6, 15, 30])):
            name, f = op()
            trail.write(name + "\n"); trail.flush()
            stats["operations"] += 1
            stats["kinds"][name] = stats["kinds"].get(name, 0) + 1
            try:
                f()
                stats["succeeded"] += 1
            except SystemError as e:
                print("SYSTEMERROR %s: %r" % (name, e))
                sys.stdout.flush()
                os._exit(3)
            except Exception:
                stats["raised"] += 1
            if len(pts) > 8:
                pts.pop(r.randrange(len(pts)))
        stats["sequences"] += 1
    del pts[:], arrays[:]
    gc.collect()
    print("DONE " + json.dumps(stats))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3])
