"""Contracts of run_drg, run_drgep and run_pfa over the contracts of their callees:
the loop over thresholds, for any number of iterations."""
from .reduction import *

DATA = z3.Function("SAMPLED", I, I, R)             # sampled states, one per row
MATRIX = z3.Function("MATRIX", I, I, I, R)         # coefficient matrix of a sampled state
CAND = z3.Function("CANDIDATE", R, C.Mod)          # candidate at a threshold (contract of reduce_*: C07)
KEEP = z3.Function("KEEP", R, Str, B)              # rated at or above the threshold
UP = z3.Function("UPPER", Str, B)                  # kept at the upper threshold
IMP = z3.Function("IMPORTANCE", Str, R)            # overall importance (contract of get_importance_coeffs: C06)
TGT, SAFE = z3.Function("IS_TARGET", Str, B), z3.Function("IS_SAFE", Str, B)
CFILE = z3.Function("CANDIDATE_FILE", R, Str)
OWN = z3.Function("OWN_FILE", Str, B)              # files named reduced_<n>.yaml in the given directory
YAML = z3.Function("YAML", C.Mod, C.Mod)


def modl(r):
    return r.c["mod"]


def err(m):
    return ERRM(YAML(m))


class Run(Scene):
    def __init__(self, ip, mod, aspects):
        super().__init__(ip, mod)
        e = core.E
        self.mod, self.aspects = mod, aspects
        self.limit = e.const("error_limit", R)
        e.assume(self.limit >= 0)
        self.targets, self.tf, self.nt, _ = self.list_of_species("targets")
        self.safe, self.sf, self.ns, _ = self.list_of_species("safe")
        e.assume(self.nt >= 1)
        k = z3.FreshConst(I, "k")
        self.upper = Opt(e.const("upper_given", B), e.const("upper", R))
        e.assume(self.upper.v > 0)
        self.nstates = e.const("n_states", I)
        e.assume(self.nstates >= 1)
        self.is_target = lambda x: boolt(ip.contains(self.targets, x))
        self.is_safe = lambda x: boolt(ip.contains(self.safe, x))
        self.protected = lambda x: Or(self.is_target(x), self.is_safe(x))
        self.prot = lambda x: Or(TGT(x), SAFE(x))      # the same, opaque; see meaning()
        self.limbo = lambda m, x: And(self.upper.cond, has(m, x), Not(SAFE(x)), Not(TGT(x)), Not(UP(x)))
        x, t, t2 = z3.Const("x!", Str), z3.Const("t!", R), z3.Const("t2!", R)
        # C07, C08: what a candidate consists of
        keep = (lambda t, x: IMP(x) >= t) if mod == "drgep" else (lambda t, x: KEEP(t, x))
        self.keep = keep
        self.species = bool(aspects & {"protected", "limbo", "ends"})
        if not self.species:
            e.assume(z3.ForAll([t, x], Implies(has(CAND(t), x), has(self.m0, x)), patterns=[C.SPI(CAND(t), x)]))
        else:
            for P in (TGT, SAFE):
                e.assume(z3.ForAll([x], Implies(P(x), has(self.m0, x)), patterns=[P(x)]))
            if mod != "drgep":
                e.assume(z3.ForAll([t, x], Implies(And(TGT(x), t > 0), KEEP(t, x)), patterns=[KEEP(t, x)]))
                e.assume(z3.ForAll([t, t2, x], Implies(And(t <= t2, KEEP(t2, x)), KEEP(t, x)), patterns=[z3.MultiPattern(KEEP(t, x), KEEP(t2, x))]))
            e.assume(z3.ForAll([x], Implies(TGT(x), UP(x)), patterns=[UP(x)]))
            e.assume(z3.ForAll([t, x], has(CAND(t), x) == And(has(self.m0, x), Or(keep(t, x), SAFE(x), *([TGT(x)] if mod == "drgep" else []))), patterns=[C.SPI(CAND(t), x)]))
        e.assume(z3.ForAll([t], And(C.NSP(CAND(t)) <= C.NSP(self.m0), Implies(C.NSP(CAND(t)) == C.NSP(self.m0), err(CAND(t)) == 0)), patterns=[CAND(t)]))
        # the original model is there and not one of the files that reductions write
        e.assume(ip.fs.c["has"](self.file))
        e.assume(Not(OWN(self.file)))
        self.fs0 = dict(ip.fs.c)
        c = ip.contracts
        c["sampling.sample"] = self.sample
        c[f"{mod}.create_{mod}_matrix"] = self.matrix
        c[f"{mod}.reduce_{mod}"] = self.reduce
        if mod == "drgep":
            c["drgep.get_importance_coeffs"] = self.importance
        ip.loop_contracts[(f"{mod}.run_{mod}", ("While", 0))] = self.loop

    def meaning(self, x):
        """what the opaque predicates say about x"""
        core.E.assume(And(TGT(x) == self.is_target(x), SAFE(x) == self.is_safe(x)))
        core.E.assume(Implies(self.protected(x), has(self.m0, x)))

    # ------------------------------------------------------- contracts of callees
    def write(self, ip, b):
        e = core.E
        e.prove("files are written to the given directory", V.veq(b["path"], self.path))
        p = WPATH(self.path, strt(b["output_filename"]))
        if not own_file_name(b["output_filename"]):
            e.fail("files of reduced models are named reduced_<n>.yaml", repr(b["output_filename"]))
        e.assume(OWN(p))
        from pyvc.lib_misc import fs_write
        fs_write(ip.fs, p, mod=C.content_of(b["solution"]), other=b["solution"])
        return p

    def sample(self, ip, b):
        core.E.prove("the given model is sampled", V.veq(b["model"], self.file))
        self.settings(b)
        n = C.NSP(self.m0)
        return (self.metrics, alloc("arr", ArrC([Axis(self.nstates), Axis(n + 2)], lambda i, j: DATA(i, j))))

    def matrix(self, ip, b):
        e = core.E
        st, sol = list(b.values())
        st = st if isinstance(st, tuple) else None
        k = None
        if st is not None and len(st) == 3 and is_z3(st[0]) and z3.is_app(st[0]) and st[0].decl().eq(DATA):
            k = st[0].arg(0)
            j = z3.FreshConst(I, "j")
            y = A.content(st[2])
            e.prove("a coefficient matrix is that of one sampled state", And(st[0].arg(1) == 0, real(st[1]) == DATA(k, 1), num(y.axes[0].n) == C.NSP(self.m0),
                    Implies(in_range(j, C.NSP(self.m0)), real(y.at(j)) == DATA(k, j + 2))))
        if k is None:
            e.fail("a coefficient matrix is that of one sampled state", repr(st))
            k = e.const("state", I)
        e.prove("coefficients are those of the original model", modl(sol) == self.m0)
        n = C.NSP(self.m0)
        return alloc("arr", ArrC([Axis(n), Axis(n)], lambda i, j: MATRIX(k, i, j)))

    def all_matrices(self, v):
        """v is the list of the matrices of all states"""
        if not isinstance(v, Ref) or v.kind != "list" or len(v.c) != 1 or not isinstance(v.c[0], For) or len(v.c[0].body) != 1:
            return False
        g = v.c[0]
        el = g.body[0]
        if not isinstance(el, Elem) or not isinstance(el.v, Ref) or el.v.kind != "arr":
            return False
        i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
        t = A.content(el.v).at(i, j)
        return is_z3(t) and t.eq(MATRIX(g.k, i, j)) and core.E.entails(num(g.n) == self.nstates)

    def importance(self, ip, b):
        e = core.E
        v = list(b.values())
        if not (names_of(self.m0, v[0]) and same(v[1], self.targets) and self.all_matrices(v[2])):
            e.fail("importances are those of the original model over all sampled states", repr(v))
        k, x = z3.FreshConst(I, "k"), z3.Const("x!", Str)
        if self.species:
            e.assume(z3.ForAll([x], UP(x) == Or(TGT(x), IMP(x) >= self.upper.v), patterns=[UP(x)]))
        self.imp = alloc("dict", DictC(has=lambda x: has(self.m0, strt(x)), get=lambda x: IMP(strt(x)), keys=(For(k, C.NSP(self.m0), (Elem(C.SPN(self.m0, k)),)),)))
        return self.imp

    def reduce(self, ip, b):
        e = core.E
        e.prove("candidates are cut from the given model", V.veq(b["model_file"], self.file))
        x = z3.Const("sx", Str)
        safe = boolt(ip.contains(b["species_safe"], x))
        if self.mod == "drgep":
            e.prove("targets and retained species are protected", safe == self.protected(x))
            e.prove("importances are those of the sampled states", same(b["importance_coeffs"], self.imp))
        else:
            e.prove("retained species are protected", safe == self.is_safe(x))
            e.prove("the given targets are used", same(b["species_targets"], self.targets))
            e.prove("coefficients of all sampled states are used", self.all_matrices(b["matrices"]))
            e.prove("the given upper threshold is used", same_opt(b["threshold_upper"], self.upper))
        e.prove("errors are relative to the sampled metrics of the original model", same(b["sampled_metrics"], self.metrics))
        self.settings(b)
        thr = real(b["threshold"])
        e.prove("the threshold is positive", thr > 0)
        prev = b["previous_model"]
        m = CAND(thr)
        x = z3.Const("px", Str)
        if prev is not None:
            pm = modl(prev.get("model"))
            if self.species:
                e.prove("a previous candidate includes all species kept now", Implies(has(m, x), has(pm, x)))
            if e.choose():
                e.assume(And(C.NSP(m) == C.NSP(pm), m == pm))
                return prev
            e.assume(C.NSP(m) < C.NSP(pm) if self.species else C.NSP(m) != C.NSP(pm))
        from pyvc.lib_misc import fs_write
        f = CFILE(thr)
        e.assume(OWN(f))
        sol = C.solution(ip, m)
        fs_write(ip.fs, f, mod=YAML(m), other=sol)
        kw = dict(model=sol, filename=f, error=err(m))
        if self.mod == "pfa":
            kw["limbo_species"] = alloc("list", (V.SetSeg(SetC(lambda x: self.limbo(m, strt(x)))),))
        elif self.mod == "drg":
            kw["limbo_species"] = opaque_list("limbo")
        return ip.instantiate(ip.fn("reduce_model", "ReducedModel"), [], kw)

    # --------------------------------------------------------------- the loop
    def loop(self, ip, loop):
        e = core.E
        fr = loop.ctx.env[-1]
        g = lambda n: fr.c.get(n)
        names = ("first", "error_current", "threshold", "threshold_increment", "previous_model", "num_species", "reduced_model")
        miss = [n for n in names[:5] if n not in fr.c]
        if miss:
            raise Unsupported(f"the loop over thresholds does not use {miss}")

        def havoc():
            RM = ip.fn("reduce_model", "ReducedModel")

            def some(nm):
                m = e.const(nm, C.Mod)
                p = z3.Function(e.fresh_name(nm + ".limbo"), Str, B)
                return ip.instantiate(RM, [], dict(model=C.solution(ip, m), filename=e.const(nm + ".file", Str), error=e.const(nm + ".error", R),
                                                   limbo_species=alloc("list", (V.SetSeg(SetC(lambda x: p(strt(x)))),))))
            rm = some("reduced")
            setc(fr, {**fr.c, "first": e.const("first", B), "error_current": e.const("error_current", R), "threshold": e.const("threshold", R),
                      "threshold_increment": e.const("increment", R), "previous_model": some("previous"), "reduced_model": rm, "num_species": e.const("num_species", I)})
            h = z3.Function(e.fresh_name("has"), Str, B)
            md = z3.Function(e.fresh_name("content"), Str, C.Mod)
            from pyvc.lib_misc import upd
            upd(ip.fs, has=lambda x: h(x), mod=lambda x: md(x))

        def inv():
            first, ec, thr, inc, prev = (g(n) for n in names[:5])
            first = boolt(first)
            ec, thr, inc = real(ec), real(thr), real(inc)
            out = [("the threshold is positive", And(thr > 0, inc > 0)),
                   ("no candidate so far", Implies(first, And(thr == inc, ec == 0, modl(prev.get("model")) == self.m0, real(prev.get("error")) == 0)))]
            red = g("reduced_model")
            if red is not None and not isinstance(red, Ref):
                lt = thr - inc
                m = CAND(lt)
                x = z3.Const("ix", Str)
                out += [("the last candidate tried", Implies(Not(first), And(modl(red.get("model")) == m, real(red.get("error")) == err(m), ec == err(m), num(g("num_species")) == C.NSP(m),
                                                                                modl(prev.get("model")) == m, real(prev.get("error")) == err(m), lt > 0))),
                        ("the candidate before a failure is within the limit", Implies(And(Not(first), ec > self.limit), And(lt - inc > 0, err(CAND(lt - inc)) <= self.limit)))]
                if self.mod in ("pfa", "drgep") and "limbo" in self.aspects:
                    for v, l in ((red, "last"), (prev, "previous")):
                        x = z3.Const("lx", Str)
                        vm = modl(v.get("model"))
                        fx = boolt(ip.contains(v.get("limbo_species"), x))
                        want = And(C.NSP(vm) != C.NSP(self.m0), self.limbo(vm, x)) if self.mod == "pfa" else z3.BoolVal(False)
                        out.append((f"limbo species of the {l} candidate", z3.ForAll([x], Implies(Not(first), fx == want) if v is red else fx == want)))
            if "files" not in self.aspects:
                return out
            y = z3.Const("fy", Str)
            hs, md, h0, md0 = ip.fs.c["has"], ip.fs.c["mod"], self.fs0["has"], self.fs0["mod"]
            out.append(("other files are as before", z3.ForAll([y], Implies(Not(OWN(y)), And(hs(y) == h0(y), md(y) == md0(y))))))
            out.append(("no file of a candidate is left", z3.ForAll([y], Implies(And(OWN(y), hs(y)), And(h0(y), md(y) == md0(y))))))
            return out

        def state():
            return tuple(g(n) for n in names[:4])

        def step(s0, s1):
            f0, f1 = boolt(s0[0]), boolt(s1[0])
            (t0, i0), (t1, i1) = ((real(z[2]), real(z[3])) for z in (s0, s1))
            x = z3.Const("ex", Str)
            m = CAND(t0)
            pigeonhole(ip, self, m)
            return [("after the first acceptable candidate the threshold grows by a fixed increment", Implies(Not(f1), And(t1 == t0 + i0, i1 == i0))),
                    ("before it, the threshold falls tenfold and not below a limit", Implies(f1, And(f0, t1 == t0 / 10, t1 >= z3.RealVal("1/100000000")))),
                    ("no iteration after a candidate without unprotected species", Or(f1, Not(z3.ForAll([x], Implies(has(m, x), self.prot(x))))))]

        def note():
            thr, inc, ec = real(g("threshold")), real(g("threshold_increment")), real(g("error_current"))
            self.end = (thr - inc, inc, ec > self.limit)
        try:
            loops.inductive_while(ip, loop, "loop over thresholds", havoc, inv, **(dict(state=state, step=step) if "ends" in self.aspects else {}))
        except loops.BreakExc:
            note()
            raise
        note()


def same_opt(a, b):
    return a is b or isinstance(a, Opt) and isinstance(b, Opt) and a.cond.eq(b.cond) and a.v.eq(b.v)


def pigeonhole(ip, sc, m):
    """finite sets: the model m contains all protected species, so it has no more species
    than there are protected ones exactly when it has no others"""
    e = core.E
    x = z3.Const("hx", Str)
    done = set()
    for c in core.apps_of(list(e.pc), {"CARD"}):
        if c.get_id() in done:
            continue
        done.add(c.get_id())
        if e.prover.valid([], simp(z3.Select(c.arg(0), x)) == sc.protected(x), lemmas=True) == "yes":
            e.assume((C.NSP(m) <= c) == z3.ForAll([x], Implies(has(m, x), sc.prot(x)), patterns=[C.SPI(m, x)]))


def run_contract(prop, mod, aspects):
    fname = f"run_{mod}"

    @vc(prop, f"{mod}.{fname}: the loop over thresholds and its result ({', '.join(sorted(aspects))})", functions=[f"{mod}.{fname}"])
    def check(ip):
        e = core.E
        sc = Run(ip, mod, aspects)
        cover(ip)
        args = [sc.file, sc.ign, sc.psr, sc.flame, sc.limit, sc.targets, sc.safe]
        kw = dict(phase_name=sc.phase, threshold_upper=sc.upper, num_threads=sc.threads, path=sc.path, min_flame_speed=sc.floor)
        before = [(a, a.c) for a in (sc.ign, sc.psr, sc.flame, sc.targets, sc.safe)]
        try:
            res = ip.verify_call(ip.fn(mod, fname), args, kw)
        except ProgExc as ex:
            if ex.exc.cls is not SystemExit:
                e.fail("the reduction ends with a model or an error", str(ex))
            e.ok("no acceptable candidate: ends with an error")
            return
        cover_end(ip, "a result is returned")
        m = modl(res.get("model"))
        f = strt(res.get("filename"))
        if "error" in aspects:
            e.prove("the reported error is that of the returned model", real(res.get("error")) == err(m))
            e.prove("the returned model is within the error limit", err(m) <= sc.limit)
            lt, inc, failed = sc.end
            e.prove("the returned model is the last candidate before the first beyond the limit", And(Implies(failed, m == CAND(lt - inc)), Implies(Not(failed), m == CAND(lt))))
        if "files" in aspects:
            y = z3.Const("y", Str)
            hs, md, h0, md0 = ip.fs.c["has"], ip.fs.c["mod"], sc.fs0["has"], sc.fs0["mod"]
            e.prove("the reported file holds the returned model", And(hs(f), md(f) == YAML(m), OWN(f)))
            e.prove("the model file is kept", And(hs(sc.file), md(sc.file) == md0(sc.file)))
            e.prove("other files are untouched", Implies(Not(OWN(y)), And(hs(y) == h0(y), md(y) == md0(y))))
            e.prove("no file of another candidate is left", Implies(And(OWN(y), hs(y), y != f), And(h0(y), md(y) == md0(y))))
        if "protected" in aspects:
            x = z3.Const("x", Str)
            sc.meaning(x)
            e.prove("protected species are in the returned model", Implies(sc.protected(x), has(m, x)))
        if "limbo" in aspects:
            x = z3.Const("x", Str)
            sc.meaning(x)
            pigeonhole(ip, sc, m)
            lim = boolt(ip.contains(res.get("limbo_species"), x))
            e.prove("limbo species", lim == sc.limbo(m, x))
        if "frame" in aspects:
            for a, c in before:
                if a.c is not c:
                    e.fail("arguments unchanged", repr(a))
