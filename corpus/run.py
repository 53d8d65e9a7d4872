"""Run the checks on variants of the package, in scratch copies.

``python3 -m corpus.run [quiet|alarm] [NAME ...]``: variants in ``corpus/quiet.py``
keep the behaviour and must not raise an alarm; those in ``corpus/alarm.py``
break the listed property and should.
"""
import concurrent.futures as cf
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def variant(edits):
    d = tempfile.mkdtemp(prefix="variant")
    shutil.copytree(os.path.join(REPO, "aemcmc"), os.path.join(d, "aemcmc"), ignore=shutil.ignore_patterns("__pycache__"))
    for f, old, new in edits:
        p = os.path.join(d, "aemcmc", f)
        s = open(p).read()
        if s.count(old) < 1:
            shutil.rmtree(d)
            raise ValueError(f"{f}: not found: {old[:80]!r}")
        s = s.replace(old, new, 1) if not old.startswith("\0") else s
        open(p, "w").write(s)
        compile(s, p, "exec")
    return d


def run(name, edits, props):
    try:
        d = variant(edits)
    except ValueError as e:
        return name, f"BROKEN {e}"
    v = tempfile.mkdtemp(prefix="verif")
    try:
        for x in ("sa", "spec", "known_findings.txt"):
            os.symlink(os.path.join(VERIF, x), os.path.join(v, x))
        try:
            r = subprocess.run(
                [sys.executable, "-c",
                 "import sys,threading;sys.path.insert(0,'.');sys.setrecursionlimit(200000);threading.stack_size(512<<20)\n"
                 "from sa import report,run\nreport.VERIF_OUT=%r\n"
                 "t=threading.Thread(target=lambda: run.main(sys.argv[1:]));t.start();t.join()" % v] + props,
                cwd=VERIF, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=900,
            )
            out = r.stdout + r.stderr[-1500:]
        except subprocess.TimeoutExpired:
            out = "TIMEOUT"
        return name, out
    finally:
        shutil.rmtree(d)
        shutil.rmtree(v)


ALL = [f"C{i:02d}" for i in range(1, 24)]


def main(argv):
    kinds = [a for a in argv if a in ("quiet", "alarm")] or ["quiet", "alarm"]
    names = [a for a in argv if a not in ("quiet", "alarm", "-v")]
    jobs = []
    for k in kinds:
        for name, (props, edits) in importlib.import_module("corpus." + k).VARIANTS.items():
            if not names or any(name.startswith(n) for n in names):
                jobs.append((k, name, edits, props))
    with cf.ThreadPoolExecutor(7) as ex:
        futs = [(k, n, p, ex.submit(run, n, e, ALL)) for k, n, e, p in jobs]
        bad = 0
        for k, n, p, f in futs:
            _, out = f.result()
            hit = sorted({w.split("=")[1] for l in out.splitlines() if l.startswith("VIOLATION") for w in l.split() if w.startswith("property=")})
            und = sorted({l.split(":")[0] for l in out.splitlines() if " undecided" in l and not " 0 undecided" in l and l[0] == "C"})
            odd = [l for l in out.splitlines() if "BROKEN" in l or "analysis failed" in l or l == "TIMEOUT"]
            ok = (not hit) if k == "quiet" else set(p) <= set(hit)
            bad += not ok
            print(f"{'ok ' if ok and not odd else 'BAD'} {k} {n}: alarms {hit} expected {p if k == 'alarm' else []} undecided {und} {odd[:2]}")
            if "-v" in argv or not ok:
                keep = [l for l in out.splitlines() if l.startswith("  ") or l.startswith("C")]
                if "-v" in argv:
                    for l in keep:
                        if " at " in l or "undecided:" in l:
                            print("     ", l[:420])
    print(f"{len(jobs)} variants, {bad} unexpected")


if __name__ == "__main__":
    main(sys.argv[1:])
