#!/usr/bin/env python3-vt
"""Check of one property: python3-vt check.py <ID> [--tier quick|thorough]

1. deductive part: every contract of the property (contracts/<id>.py) is verified
   against the current source of /repo (each function's AST is read anew);
2. replay part: the postconditions of the contracts are evaluated on concrete inputs
   of the real code (replay/<ID>.py, run with the project's interpreter).

exit 0: every obligation discharged and no concrete violation; exit 1 otherwise.
"""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, signal, pickle, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = os.environ.get("PYMARS_PYTHON", "/opt/venv/bin/python")
CPUS = max(2, min(8, os.cpu_count() or 8))


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING:"):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                if f.get("property") == prop:
                    out[f["key"]] = " ".join(line.split()[3:])
    return out


def start_battery(prop, tier, seed, work):
    f = os.path.join(HERE, "replay", f"{prop}.py")
    if not os.path.exists(f):
        return None
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               TMPDIR=work, HOME=os.environ.get("HOME", work), MPLBACKEND="Agg")
    env.setdefault("BATTERY_SECONDS", "60" if tier == "quick" else "400")
    out = os.path.join(work, "battery.json")
    p = subprocess.Popen([PY, f, out], cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "battery.err"), "w"), start_new_session=True)
    p.out = out
    return p


class Job:
    """one verification run in a process of its own"""

    def __init__(self, prop, idx, v, limit, work, part=None):
        self.v, self.idx, self.part, self.limit = v, idx, part, limit
        self.out = os.path.join(work, f"vc{idx}_{part}.pkl")
        self.t0 = time.time()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setsid()
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                sys.setrecursionlimit(20000)
                from contracts import common
                r = common.run_vc(v, timeout=limit)
                d = dict(name=r.name, error=r.error, paths=r.paths, wall=r.wall, solver=r.solver, queries=r.queries, assumptions=r.assumptions,
                         covered=r.covered, obligs=[(o.name, o.status, o.detail[:6000]) for o in r.obligs])
                with open(self.out + ".tmp", "wb") as f:
                    pickle.dump(d, f)
                os.rename(self.out + ".tmp", self.out)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)

    def poll(self):
        p, _ = os.waitpid(self.pid, os.WNOHANG)
        if p:
            return True
        if time.time() - self.t0 > self.limit + 20:
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(self.pid, 0)
            return True
        return False

    def result(self):
        if os.path.exists(self.out):
            return pickle.load(open(self.out, "rb"))
        return dict(name=self.v.name, error="the verifier did not finish", paths=0, wall=time.time() - self.t0, solver=0.0, queries=0, assumptions=[], covered=[], obligs=[])


def run_vcs(prop, vcs, tier, work):
    limit = {"quick": 300, "thorough": 600}[tier]
    todo = list(enumerate(vcs))
    running, done = [], {}
    overall = time.time() + (560 if tier == "quick" else 780)
    while todo or running:
        while todo and len(running) < CPUS:
            i, v = todo.pop(0)
            running.append(Job(prop, i, v, min(limit, max(5, overall - time.time() - 25)), work))
        for j in list(running):
            if j.poll():
                running.remove(j)
                done[j.idx] = j.result()
        time.sleep(0.02)
    return [done[i] for i in range(len(vcs))]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"check_{prop}_")
    code = 1
    try:
        code = decide(prop, tier, seed, t0, work)
    except BaseException:
        # the machinery must never be quiet about not having decided
        rp = write_replay(prop, "machinery", traceback.format_exc())
        print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        traceback.print_exc()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def write_replay(prop, tag, text):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{tag}.txt")
    with open(p, "w") as f:
        f.write(text)
    return p


def decide(prop, tier, seed, t0, work):
    bat = start_battery(prop, tier, seed, work)
    vcs, modwhy = [], ""
    cf = os.path.join(HERE, "contracts", prop.lower() + ".py")
    level_note = {}
    trusted = []
    if os.path.exists(cf):
        from contracts import common
        mod = importlib.import_module("contracts." + prop.lower())
        vcs = common.REGISTRY.get(prop, [])
        trusted = common.trusted(prop)
    results = run_vcs(prop, vcs, tier, work) if vcs else []

    # ---- replay part
    br = None
    if bat is not None:
        limit = 780 - (time.time() - t0) if tier == "quick" else 840 - (time.time() - t0)
        try:
            bat.wait(timeout=max(30, limit))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(bat.pid, signal.SIGKILL)
        except OSError:
            pass
        if os.path.exists(bat.out):
            br = json.load(open(bat.out))
        else:
            err = open(os.path.join(work, "battery.err")).read()[-2000:]
            br = dict(cases=0, distinct=0, sections={}, violations=[], known=[], samples=[], error="no result: " + err, wall=time.time() - t0)

    # ---- verdict
    known = known_findings(prop)
    lines, bad = [], 0
    open_ob = []
    total = disch = 0
    for r in results:
        if r["error"]:
            open_ob.append((r["name"], "not decided", r["error"]))
        elif not r["obligs"]:
            open_ob.append((r["name"], "no obligation generated", ""))
        for n, s, d in r["obligs"]:
            total += 1
            if s == "discharged":
                disch += 1
            else:
                open_ob.append((f"{r['name']} / {n}", s, d))
    viol = list(br["violations"]) if br else []
    for k in (br or {}).get("known", []):
        if k["key"] in known:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            viol.append({"section": "finding", "what": k["what"], "input": {"key": k["key"]}})
    failed = sorted({f"{n} [{s}]" for n, s, d in open_ob})
    if viol:
        bad += 1
        txt = f"property {prop}: the real code violates the contract on these inputs\nrerun: cd <scratch directory> && VERIF_SEED={seed} VERIF_TIER={tier} {PY} {HERE}/replay/{prop}.py out.json\n\n"
        txt += json.dumps(viol, indent=1)
        txt += "\n\nobligations of the verifier that are not discharged:\n" + "\n".join(failed)
        rp = write_replay(prop, "input", txt)
        lines.append(f"violated: {viol[0]['what'][:300]}")
        lines.append(f"VIOLATION property={prop} replay={rp}")
    elif open_ob:
        bad += 1
        txt = f"property {prop}: obligations not discharged on the current source\n\n" + "\n\n".join(f"{n}: {s}\n{d}" for n, s, d in open_ob[:40])
        rp = write_replay(prop, "obligation", txt)
        lines.append(f"failed obligation: {open_ob[0][0]} ({open_ob[0][1]})")
        lines.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
    elif br is not None and (br.get("error") or not br["cases"]):
        bad += 1
        rp = write_replay(prop, "replay-error", f"the replay of {prop} did not complete\n{br.get('error')}")
        lines.append("replay did not complete: " + str(br.get("error")).strip().split("\n")[-1][:300])
        lines.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")

    # ---- evidence
    funcs = sorted({f for v in vcs for f in v.functions})
    cov = {}
    if vcs:
        cov.update(obligations=total, discharged=disch, checker_cmd=f"python3-vt check.py {prop} (pyvc: verification conditions from the current source of {os.environ.get('PYMARS_REPO', '/repo')}, discharged by z3 {z3version()})",
                   trusted_base=trusted + sorted({a for r in results for a in r["assumptions"]}),
                   functions_under_contract=funcs, functions_interpreted=sorted({f for r in results for f in r["covered"]}),
                   verification_runs=[dict(name=r["name"], paths=r["paths"], obligations=len(r["obligs"]), wall_s=round(r["wall"], 2), solver_s=round(r["solver"], 2), solver_queries=r["queries"]) for r in results],
                   back_end="z3", solver_time_s=round(sum(r["solver"] for r in results), 2), obligations_open=failed[:40])
    if br:
        cov.update(evaluations=br["cases"], distinct_nontrivial=br["distinct"], rule="concrete inputs of the real functions, generated from the seed by the generators of replay/%s.py; distinct by their description" % prop,
                   samples=br["samples"][:4], replay_sections=br["sections"], replay_wall_s=br["wall"])
    level = claim_level(prop, bool(vcs))
    if level == "other" or not vcs:
        cov["explanation"] = level_text(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions(prop, trusted), wall_s=round(time.time() - t0, 2), violations=bad)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {disch}/{total} obligations discharged in {len(results)} verification runs, {br['cases'] if br else 0} replayed cases, {time.time() - t0:.1f} s")
    for l in lines:
        print(l)
    return 1 if bad else 0


def z3version():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def manifest_entry(prop):
    try:
        m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        return next(c for c in m["checks"] if c["property"] == prop)
    except Exception:
        return {}


def claim_level(prop, has):
    return manifest_entry(prop).get("level", "proof" if has else "other")


def level_text(prop):
    return manifest_entry(prop).get("level_note", "contracts evaluated on concrete inputs of the real code (bounded)")


def assumptions(prop, trusted):
    return trusted


if __name__ == "__main__":
    main()
