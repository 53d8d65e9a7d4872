"""``python3 -m sa.run PROPERTY [--tier quick|thorough]``"""
import importlib
import os
import resource
import sys
import threading
import traceback

from .report import Broken, Report

LIMIT = 600  # seconds
CURRENT = []
MODULES = ["kernels", "finders", "glue", "registry"]


def checks():
    """``{property: [check function]}``; a property can have parts in several modules."""
    out = {}
    for m in MODULES:
        for p, f in importlib.import_module(f"sa.checks.{m}").CHECKS.items():
            out.setdefault(p, []).append(f)
    return out


def run(prop, tier, seed):
    rep = Report(prop, tier, seed)
    C = checks()
    if prop not in C:
        print(f"no check for {prop}")
        return 2
    CURRENT[:] = [rep]
    try:
        for f in C[prop]:
            try:
                f(rep)
            except Broken:
                raise
            except (Exception, MemoryError) as e:
                # a construct that the engine can't handle isn't a verdict about the code
                traceback.print_exc()
                rep.undecided(f"{f.__module__}", "", f"the analysis failed: {type(e).__name__}: {e}"[:300])
        return rep.finish()
    except Broken as e:
        print(f"ANALYSIS-BROKEN property={prop} {e}")
        return 2


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    props = []
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        else:
            props.append(a)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if props == ["all"]:
        props = sorted(checks())
    rc = 0
    for p in props:
        try:
            r = run(p, tier, seed)
        except Exception:
            traceback.print_exc()
            r = 3
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    out = []
    t = threading.Thread(target=lambda: out.append(main(sys.argv[1:])), daemon=True)
    t.start()
    t.join(LIMIT)
    if t.is_alive() and CURRENT:
        CURRENT[0].undecided("the whole analysis", "", f"not finished within {LIMIT} s")
        out.append(CURRENT[0].finish())
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(out[0] if out else 3)
