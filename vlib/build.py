"""Overlay build of /repo's current cpnest package: copied and compiled outside /repo, keyed by content."""
import fcntl, hashlib, os, shutil, subprocess, sys, sysconfig, tempfile, time

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, ".cache")
FLAGS = {
    "plain": ["-O3", "-ffast-math", "-DNDEBUG"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,nonnull-attribute"],
}


class BuildError(Exception):
    pass


def _sources():
    src = os.path.join(REPO, "cpnest")
    out = []
    for d, dirs, files in os.walk(src):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith((".so", ".pyc", ".o")) or f == "parameter.c":
                continue
            p = os.path.join(d, f)
            out.append((os.path.relpath(p, src), p))
    return out


def _digest(pairs, extra):
    h = hashlib.sha256(extra.encode())
    for rel, p in pairs:
        h.update(rel.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def _extension(variant, pairs):
    """path of the compiled extension for this pyx/pxd content"""
    ext = [(r, p) for r, p in pairs if r.endswith((".pyx", ".pxd", ".pxi", ".h", ".c"))]
    key = _digest(ext, variant + " ".join(FLAGS[variant]) + sys.version)
    so = os.path.join(CACHE, "ext-%s-%s.so" % (variant, key))
    if os.path.exists(so):
        return so
    tmp = tempfile.mkdtemp(prefix="build-", dir=CACHE)
    try:
        for r, p in ext:
            os.makedirs(os.path.dirname(os.path.join(tmp, "cpnest", r)), exist_ok=True)
            shutil.copy(p, os.path.join(tmp, "cpnest", r))
        open(os.path.join(tmp, "cpnest", "__init__.py"), "w").close()
        import numpy
        _run([sys.executable, "-m", "cython", os.path.join("cpnest", "parameter.pyx")], tmp)
        _run(["gcc", "-shared", "-fPIC", "-fwrapv", "-w"] + FLAGS[variant]
             + ["-I" + numpy.get_include(), "-I" + sysconfig.get_paths()["include"], "-Icpnest",
                "cpnest/parameter.c", "-o", "out.so", "-lm"], tmp)
        os.rename(os.path.join(tmp, "out.so"), so)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


def overlay(variant="plain"):
    """Directory to put first on PYTHONPATH; contains the package cpnest built from /repo's working tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        pairs = _sources()
        if not any(r == "parameter.pyx" for r, _ in pairs):
            raise BuildError("no cpnest/parameter.pyx in " + REPO)
        d = os.path.join(CACHE, "ov-%s-%s" % (variant, _digest(pairs, variant)))
        if not os.path.exists(os.path.join(d, "ok")):
            so = _extension(variant, pairs)
            tmp = tempfile.mkdtemp(prefix="ovtmp-", dir=CACHE)
            for r, p in pairs:
                q = os.path.join(tmp, "cpnest", r)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copy(p, q)
            shutil.copy(so, os.path.join(tmp, "cpnest", "parameter" + sysconfig.get_config_var("EXT_SUFFIX")))
            open(os.path.join(tmp, "ok"), "w").close()
            shutil.rmtree(d, ignore_errors=True)
            os.rename(tmp, d)
        os.utime(d)
        # forget old overlays and objects
        now = time.time()
        for n in os.listdir(CACHE):
            p = os.path.join(CACHE, n)
            if n != "lock" and p != d and now - os.stat(p).st_mtime > 3 * 3600:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        return d


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "asan"]:
        print(v, overlay(v))
