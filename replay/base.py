"""Concrete replay of the contracts on the real code (run with the project's Python).

Usage: battery.py OUT.json ; environment: VERIF_SEED, VERIF_TIER, PYMARS_REPO.
Every battery evaluates the postconditions of a property's contracts on concrete
inputs of the real functions and reports the inputs on which one fails.
"""
import os, sys, json, time, random, traceback, contextlib, tempfile, shutil, logging, hashlib, copy

REPO = os.environ.get("PYMARS_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))


class Battery:
    def __init__(self, prop):
        self.prop = prop
        self.rng = random.Random(SEED * 7919 + int(hashlib.md5(prop.encode()).hexdigest()[:6], 16))
        self.cases = 0
        self.distinct = set()
        self.violations = []
        self.known = []
        self.samples = []
        self.errors = []
        self.sections = {}
        self.t0 = time.time()
        self.budget = float(os.environ.get("BATTERY_SECONDS", "400" if THOROUGH else "60"))
        self._sec = None

    def section(self, name):
        self._sec = name
        self.sections.setdefault(name, 0)

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 6) if THOROUGH else quick

    def time_left(self, share=1.0):
        return time.time() - self.t0 < self.budget * share

    def case(self, *key):
        self.cases += 1
        if self._sec:
            self.sections[self._sec] += 1
        s = repr(key)[:4000]
        self.distinct.add(hashlib.md5(s.encode()).hexdigest())
        if len(self.samples) < 4 and self.cases % 7 == 1:
            self.samples.append(s[:400])

    def violation(self, what, **inp):
        if len(self.violations) < 12:
            self.violations.append({"section": self._sec, "what": what, "input": {k: repr(v)[:3000] for k, v in inp.items()}})

    def check(self, cond, what, **inp):
        if not cond:
            self.violation(what, **inp)
        return bool(cond)

    def known_finding(self, key, what):
        if not any(k["key"] == key for k in self.known):
            self.known.append({"key": key, "what": what})

    def expect(self, what, fn, *a, **k):
        """result of fn; an unexpected exception is a violation"""
        inp = k.pop("_inp", {})
        try:
            return fn(*a, **k), None
        except (Exception, SystemExit) as e:
            self.violation(f"{what}: unexpected {type(e).__name__}: {e}", trace=traceback.format_exc()[-1500:], **inp)
            return None, e


def main(prop, body):
    out = os.path.abspath(sys.argv[1]) if len(sys.argv) > 1 else None
    b = Battery(prop)
    tmp = tempfile.mkdtemp(prefix=f"replay_{prop}_")
    cwd = os.getcwd()
    os.chdir(tmp)
    err = None
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1), os.dup(2)
    if out:
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    try:
        import warnings
        warnings.simplefilter("ignore")
        body(b)
    except (Exception, SystemExit):
        err = traceback.format_exc()[-3000:]
    finally:
        if out:
            os.dup2(saved[0], 1)
            os.dup2(saved[1], 2)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    res = dict(property=prop, cases=b.cases, distinct=len(b.distinct), sections=b.sections, violations=b.violations, known=b.known,
               samples=b.samples, error=err, wall=round(time.time() - b.t0, 2), seed=SEED)
    if out:
        with open(out, "w") as f:
            json.dump(res, f, indent=1)
    else:
        print(json.dumps(res, indent=1)[:6000])


@contextlib.contextmanager
def scratch():
    """a fresh working directory, removed afterwards"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="case_", dir=old)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def patched(*pairs):
    """pairs (object, attribute, new value)"""
    old = []
    try:
        for o, a, v in pairs:
            had = a in vars(o) if hasattr(o, "__dict__") else True
            old.append((o, a, getattr(o, a, None), had))
            setattr(o, a, v)
        yield
    finally:
        for o, a, v, had in reversed(old):
            if had:
                setattr(o, a, v)
            else:
                delattr(o, a)


@contextlib.contextmanager
def replaced_everywhere(orig, new):
    """every name in the pymars modules bound to orig is bound to new"""
    done = []
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "pymars" and m is not None:
            for a, v in list(vars(m).items()):
                if v is orig:
                    setattr(m, a, new)
                    done.append((m, a))
    try:
        yield
    finally:
        for m, a in done:
            setattr(m, a, orig)


def close(a, b, rel=1e-9, abs_=1e-12):
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)
