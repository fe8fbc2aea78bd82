#!/opt/venv/bin/python
"""run.py C05 [quick|thorough]: build the overlay from /repo's working tree and run one check on it."""
import importlib, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    if "VERIF_OVERLAY" not in os.environ:
        from vlib import build
        try:
            ov = build.overlay("plain")
        except build.BuildError as e:
            print("BUILD FAILED: %s" % e)
            return 2
        env = dict(os.environ, VERIF_OVERLAY=ov, PYTHONPATH=ov + os.pathsep + ROOT, PYTHONHASHSEED="0",
                   PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        os.execve(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env)
    import cpnest
    assert os.path.dirname(cpnest.__file__).startswith(os.environ["VERIF_OVERLAY"]), cpnest.__file__
    mod = importlib.import_module("checks." + pid.lower())
    from vlib.check import Check
    chk = Check(pid, mod.RULE, getattr(mod, "LEVEL", "exploration"), getattr(mod, "ASSUMPTIONS", ()))
    import warnings, logging
    warnings.simplefilter("ignore")
    cpnest.console_handler.setLevel(1000)
    try:
        mod.run(chk)
    except BaseException:
        import traceback
        traceback.print_exc()
        chk.inconclusive("the check itself failed: " + traceback.format_exc()[-1500:])
    rc = chk.finish()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    sys.exit(main())
