"""Runs the checks against the planted changes (seeded/<id>/patch.diff), each applied to a
scratch copy of the repository.  python3 tools/try_seeds.py [id ...] [-jN] [--all: every check]"""
import sys, os, json, subprocess, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jobs = next((int(a[2:]) for a in sys.argv if a.startswith("-j")), 2)
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(H, "seeded")))


def one(i):
    d = os.path.join(H, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        shutil.copytree("/repo", w + "/repo", symlinks=True)
        subprocess.run(["git", "-C", w + "/repo", "checkout", "-q", "--", "."], check=True)
        subprocess.run(["git", "-C", w + "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
        t = time.time()
        r = subprocess.run(["python3-vt", "check.py", prop], cwd=H, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", PYMARS_REPO=w + "/repo"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        kind = "missed" if not v else ("obligation only" if "no-failing" in v[0] else "failing input")
        ob = []
        if v:
            txt = open(v[0].split("replay=")[1].split()[0]).read()
            if "not discharged:\n" in txt:
                ob = [x for x in txt.split("not discharged:\n")[1].splitlines() if x][:1]
        print(f"{i:32} {prop} rc={r.returncode} {kind:16} {time.time() - t:.0f}s", [l[:160] for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][1:2], ob, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
