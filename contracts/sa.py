"""Contracts of the sensitivity analysis (C25, C08, C09, C10)."""
from .reduction import *
from pyvc.lib_misc import fs_write, upd, UNDERP

YAML = z3.Function("YAML", C.Mod, C.Mod)
CUT = z3.Function("CUT", C.Mod, Str, C.Mod)        # trim of the model in a file by one species (C01)
FILEOF = z3.Function("FILEOF", Str, Str, C.Mod, Str)


def err1(c, s):
    """error of the model in file content c without species s"""
    return ERRM(YAML(CUT(c, s)))


def nth_fail():
    raise Unsupported("element of a nested sequence")


def nth(seq, i):
    """element i of a list as a total function (anything outside the bounds)"""
    out, off = None, 0
    parts = []
    for g in seq:
        if isinstance(g, Elem):
            parts.append((off, g.v, 1))
            off = V.add(off, 1)
        elif V.simple_for(g):
            parts.append((off, V.inst(g, core.simp(num(i) - num(off)))[0].v, V.for_len(g)))
            off = V.add(off, V.for_len(g))
        elif isinstance(g, For):
            parts.append((off, V.filtered_get(g, core.simp(num(i) - num(off)), total=True), V.for_len(g)))
            off = V.add(off, V.for_len(g))
        elif isinstance(g, IfS):
            return ite(g.c, nth(g.a + seq[1:], i), nth(g.b + seq[1:], i)) if g is seq[0] else nth_fail()
        else:
            nth_fail()
    for o, v, n in reversed(parts):
        out = strt(v) if out is None else ite(num(i) < num(o) + num(n), strt(v), out)
    return out if out is not None else z3.FreshConst(Str, "none")


class SA(Scene):
    def __init__(self, ip, aspects):
        super().__init__(ip, "sensitivity_analysis")
        e = core.E
        self.aspects = aspects
        ip.contracts["reduce_model.trim"] = self.trim1
        ip.contracts["sampling.sample_metrics"] = self.sample_metrics
        self.algo = e.const("algorithm_type", Str)
        self.limit = e.const("error_limit", R)
        m, x, s = z3.Const("m!", C.Mod), z3.Const("x!", Str), z3.Const("s!", Str)
        e.assume(ip.fs.c["has"](self.file))
        if "species" in aspects:
            e.assume(z3.ForAll([m, s, x], has(CUT(m, s), x) == And(has(C.PHASE(m, self.phase), x), x != s), patterns=[C.SPI(CUT(m, s), x)]))
        e.assume(z3.ForAll([m], C.PHASE(YAML(m), self.phase) == m, patterns=[YAML(m)]))
        self.on_trim = None
        self.last = None

    def content(self, f):
        return self.ip.fs.c["mod"](strt(f))

    def trim1(self, ip, b):
        e = core.E
        seq = ip.iter_seq(b["exclusion_list"])
        if len(seq) != 1 or not isinstance(seq[0], Elem):
            e.fail("one species is removed at a time", repr(seq))
            raise PathEnd()
        s = strt(seq[0].v)
        e.prove("candidates are cut from the given phase", V.veq(b["phase_name"], self.phase))
        c = self.content(b["initial_model_file"])
        if self.on_trim:
            self.on_trim(c, s)
        return C.solution(ip, CUT(c, s))

    def sample_metrics(self, ip, b):
        e = core.E
        self.settings(b)
        f = strt(b["model"])
        if f.eq(self.file):
            return self.metrics
        e.prove("metrics of a candidate are never taken from saved files", Not(boolt(ip.truth_term(b["reuse_saved"]))))
        e.prove("the evaluated file exists", ip.fs.c["has"](f))
        c = self.content(f)
        return alloc("arr", ArrC([Axis(NMET())], lambda i: MET(c, i)), ("metrics", c))

    def calculate_error(self, ip, b):
        r = super().calculate_error(ip, b)
        self.last = r
        return r


def evaluate_contract(prop):
    @vc(prop, "sensitivity_analysis.evaluate_species_errors: the error attributed to a species is that of the model without it",
        functions=["sensitivity_analysis.evaluate_species_errors"])
    def check(ip):
        e = core.E
        sc = SA(ip, {"errors"})

        def write(ip_, b):
            # file names differ by species; contents by name are abstracted to one path per content
            c = C.content_of(b["solution"])
            p = FILEOF(strt(b["path"]), strt(b["output_filename"]), c)
            e.assume(And(ip.fs.c["has"](p), ip.fs.c["mod"](p) == c))
            return p
        ip.contracts["soln2yaml.write"] = write
        n = e.const("n_limbo", I)
        e.assume(n >= 0)
        limbo, g = strlist("limbo", n)
        start = ip.instantiate(ip.fn("reduce_model", "ReducedModel"), [], dict(model=C.solution(ip, sc.m0), filename=e.const("current_file", Str), error=e.const("current_error", R)))
        f = strt(start.get("filename"))
        e.assume(ip.fs.c["has"](f))
        c0 = ip.fs.c["mod"](f)
        cover(ip)
        before = [(a, a.c) for a in (limbo, sc.ign, sc.psr, sc.flame, sc.metrics)]
        res = ip.verify_call(ip.fn("sensitivity_analysis", "evaluate_species_errors"), [start, sc.ign, sc.metrics, limbo],
                             dict(psr_conditions=sc.psr, flame_conditions=sc.flame, phase_name=sc.phase, num_threads=sc.threads, min_flame_speed=sc.floor))
        a = A.content(res)
        cover_end(ip, "a result")
        e.prove("one error per species", And(z3.BoolVal(len(a.axes) == 1), num(a.axes[0].n) == n))
        k = e.const("k", I)
        e.assume(in_range(k, n))
        e.prove("it is that of the model without this species alone", real(a.at(k)) == err1(c0, g(k)))
        for r, c in before:
            if r.c is not c:
                e.fail("arguments unchanged", repr(r))


class Analysis(SA):
    """run_sa over the contract of evaluate_species_errors"""

    def __init__(self, ip, aspects):
        super().__init__(ip, aspects)
        e = core.E
        e.name_argmin = True
        self.start_error = e.const("starting_error", R)
        e.assume(self.start_error <= self.limit)
        e.assume(Or(self.algo == lit("greedy"), self.algo == lit("initial")))
        self.greedy = self.algo == lit("greedy")
        self.safe, self.sf, self.ns, _ = self.list_of_species("safe")
        n = e.const("n_given", I)
        e.assume(n >= 0)
        self.n_given = n
        self.given, self.gf = strlist("given", n, distinct=True)
        self.gpos = z3.Function("given.pos", Str, I)
        self.is_safe = lambda x: boolt(ip.contains(self.safe, x))
        in_given = lambda x: And(in_range(self.gpos(x), n), self.gf(self.gpos(x)) == x)
        # the species considered: the given ones or all, without the protected ones
        self.cand = lambda x: And(Not(self.is_safe(x)), ite(n > 0, in_given(x), has(self.m0, x)))
        self.fs0 = dict(ip.fs.c)
        self.tmp = None
        self.head = None
        c = ip.contracts
        c["sensitivity_analysis.evaluate_species_errors"] = self.evaluate
        ip.loop_contracts[("sensitivity_analysis.run_sa", ("While", 0))] = self.loop
        self.on_trim = self.check_choice

    def write(self, ip, b):
        e = core.E
        d = strt(b["path"])
        name = strt(b["output_filename"])
        p = WPATH(d, name)
        if self.head is not None and not self.final:
            self.tmp = d
            e.prove("candidates are written to a temporary directory", UNDERP(p, d) if self.is_tmp(ip, d) else z3.BoolVal(False))
        else:
            e.prove("the final model is written to the given directory", d == self.path)
            if not own_file_name(b["output_filename"]):
                e.fail("the final file is named reduced_<n>.yaml", repr(name))
        fs_write(ip.fs, p, mod=C.content_of(b["solution"]), other=b["solution"])
        return p

    def is_tmp(self, ip, d):
        """d is a directory made by TemporaryDirectory: files below it are its own"""
        nm = d.decl().name() if z3.is_app(d) else ""
        if nm.startswith("tmp"):
            x = z3.Const("x!", Str)
            core.E.assume(z3.ForAll([x], UNDERP(WPATH(d, x), d), patterns=[WPATH(d, x)]))
            return True
        return False

    def evaluate(self, ip, b):
        e = core.E
        for a, v in (("ignition_conditions", self.ign), ("psr_conditions", self.psr), ("flame_conditions", self.flame), ("min_flame_speed", self.floor), ("phase_name", self.phase)):
            e.prove(f"errors of species use the given {a}", same(b[a], v))
        e.prove("errors of species are relative to the original metrics", same(b["metrics"], self.metrics))
        st = b["starting_model"]
        f = strt(st.get("filename"))
        e.prove("the file of the starting model exists", ip.fs.c["has"](f))
        c = self.content(f)
        lst = b["species_limbo"]
        seq = lst.c
        n = V.seq_len(seq)
        return alloc("arr", ArrC([Axis(n)], lambda i: err1(c, nth(seq, i))))

    # ------------------------------------------------------------ the loop
    def attributed(self, ip, cur_file):
        """content of the file from which the errors were evaluated"""
        return ite(self.greedy, self.content(cur_file), self.fs0["mod"](self.file))

    def check_choice(self, c, s):
        e = core.E
        if self.head is None:
            e.fail("a species is removed within the loop only", "")
            return
        if "steps" not in self.aspects:
            return
        lim, n, cur_file, cur_err, att, hcont = self.head
        e.prove("a candidate is cut from the current model", c == hcont)
        x = z3.Const("cx", Str)
        j, k = e.const("cj", I), z3.FreshConst(I, "k")
        dist = lambda y: z3.If(err1(att, y) - cur_err >= 0, err1(att, y) - cur_err, cur_err - err1(att, y))
        e.prove("the species removed is one of those left", exists([k], And(in_range(k, n), lim(k) == s)))
        e.prove("its error is closest to the current one", Implies(in_range(j, n), dist(s) <= dist(lim(j))))

    def loop(self, ip, loop):
        e = core.E
        fr = loop.ctx.env[-1]
        g = lambda nm: fr.c.get(nm)
        for nm in ("species_limbo", "species_errors", "current_model"):
            if nm not in fr.c:
                raise Unsupported(f"the loop over species does not use {nm}")
        lref = g("species_limbo")
        mod0 = self.fs0["mod"]
        c0 = mod0(self.file)

        def havoc():
            RM = ip.fn("reduce_model", "ReducedModel")
            n = e.const("n_left", I)
            nm = e.fresh_name("left")
            lst, lf = strlist(nm, n, distinct=True)
            e.assume(n >= 0)
            setc(lref, lst.c)
            ne = e.const("n_errors", I)
            EF = z3.Function(e.fresh_name("errors"), I, R)
            m = e.const("current", C.Mod)
            f = e.const("current.file", Str)
            cur = ip.instantiate(RM, [], dict(model=C.solution(ip, m), filename=f, error=e.const("current.error", R)))
            setc(fr, {**fr.c, "species_errors": alloc("arr", ArrC([Axis(ne)], lambda i: EF(i))), "current_model": cur})
            h = z3.Function(e.fresh_name("has"), Str, B)
            md = z3.Function(e.fresh_name("content"), Str, C.Mod)
            upd(ip.fs, has=lambda x: h(x), mod=lambda x: md(x))
            self.head = (lf, n, f, real(cur.get("error")), self.attributed(ip, f), md(f))

        def inv():
            cur, errs = g("current_model"), A.content(g("species_errors"))
            m, f, ce = cur.get("model").c["mod"], strt(cur.get("filename")), real(cur.get("error"))
            seq = lref.c
            n = num(V.seq_len(seq))
            at = lambda i: nth(seq, i)
            k, k2, x = e.const("ik", I), e.const("ik2", I), z3.Const("ix", Str)
            k, k2 = z3.Int("ik!"), z3.Int("ik2!")
            att = self.attributed(ip, f)
            left = lambda x: boolt(ip.contains(lref, x))
            out = [("as many errors as species", And(num(errs.axes[0].n) == n, n >= 0)),
                   ("each species is left once", z3.ForAll([k, k2], Implies(And(in_range(k, n), in_range(k2, n), k != k2), at(k) != at(k2)))),
                   ("the file of the current model holds it", And(ip.fs.c["has"](f), C.PHASE(self.content(f), self.phase) == m))]
            if "steps" in self.aspects:
                out.append(("each error belongs to its species", z3.ForAll([k], Implies(in_range(k, n), real(errs.at(k)) == err1(att, at(k))))))
            if self.aspects & {"steps", "error"}:
                out.append(("the current model is within the limit", And(ce <= self.limit, Or(And(m == self.m0, ce == self.start_error, self.content(f) == c0), ce == ERRM(YAML(m))))))
            if "species" in self.aspects:
                out.append(("the species left are candidates", z3.ForAll([x], Implies(left(x), self.cand(x)))))
                out.append(("the current model lacks the candidates that are not left", z3.ForAll([x], has(m, x) == And(has(self.m0, x), Not(And(self.cand(x), Not(left(x))))), patterns=[C.SPI(m, x)])))
            if "files" in self.aspects and self.head is not None:
                y = z3.Const("fy", Str)
                hs, md, h0, md0 = ip.fs.c["has"], ip.fs.c["mod"], self.fs0["has"], self.fs0["mod"]
                t = self.tmpdir(ip, loop)
                out.append(("only temporary files change", z3.ForAll([y], Implies(Not(UNDERP(y, t)), And(hs(y) == h0(y), md(y) == md0(y))))))
            return out

        def variant():
            return num(V.seq_len(lref.c))
        self.final = False
        try:
            loops.inductive_while(ip, loop, "loop over species", havoc, inv, variant=variant)
        except loops.BreakExc:
            self.final = True
            self.end(ip, g, lref)
            raise
        self.final = True
        self.end(ip, g, lref)

    def tmpdir(self, ip, loop):
        t = loop.ctx.env[-1].c.get("temp_dir")
        return strt(t)

    def end(self, ip, g, lref):
        e = core.E
        cur = g("current_model")
        j = e.const("end_j", I)
        c = self.content(strt(cur.get("filename")))
        seq = lref.c
        n = num(V.seq_len(lref.c))
        last = self.last if self.last is not None else None
        if "steps" in self.aspects:
            e.prove("the analysis ends when no species is left or the next step exceeds the limit",
                    Or(n == 0, last > self.limit if last is not None else False, Implies(in_range(j, n), err1(c, nth(seq, j)) > self.limit)))
        self.result = (cur.get("model").c["mod"], real(cur.get("error")))


def run_sa_contract(prop, aspects):
    titles = {"steps": "removes the species with the closest error, within the limit", "error": "the final model is within the limit, its error its own", "species": "only candidates are removed", "files": "files"}

    @vc(prop, f"sensitivity_analysis.run_sa: {titles[sorted(aspects)[0]]}", functions=["sensitivity_analysis.run_sa"])
    def check(ip):
        e = core.E
        sc = Analysis(ip, aspects)
        cover(ip)
        args = [sc.file, sc.start_error, sc.ign, sc.psr, sc.flame, sc.limit, sc.safe]
        kw = dict(phase_name=sc.phase, algorithm_type=sc.algo, species_limbo=sc.given, num_threads=sc.threads, path=sc.path, min_flame_speed=sc.floor)
        before = [(a, a.c) for a in (sc.ign, sc.psr, sc.flame, sc.safe, sc.given)]
        res = ip.verify_call(ip.fn("sensitivity_analysis", "run_sa"), args, kw)
        cover_end(ip, "a result is returned")
        m, f, er = res.get("model").c["mod"], strt(res.get("filename")), real(res.get("error"))
        if "steps" in aspects:
            e.prove("the last accepted model and its error are returned", And(m == sc.result[0], er == sc.result[1]))
        if aspects & {"steps", "error"}:
            e.prove("the error of the returned model is its own and within the limit", And(er <= sc.limit, Or(er == ERRM(YAML(m)), And(m == sc.m0, er == sc.start_error))))
        if aspects & {"files", "error"}:
            e.prove("the reported file holds the model", And(ip.fs.c["has"](f), ip.fs.c["mod"](f) == YAML(m)))
        x = z3.Const("x", Str)
        if "species" in aspects:
            e.prove("protected species are kept", Implies(And(has(sc.m0, x), sc.is_safe(x)), has(m, x)))
        if "files" in aspects:
            y = z3.Const("y", Str)
            hs, md, h0, md0 = ip.fs.c["has"], ip.fs.c["mod"], sc.fs0["has"], sc.fs0["mod"]
            e.prove("files other than the one reported are untouched", Implies(y != f, And(hs(y) == h0(y), Implies(h0(y), md(y) == md0(y)))))
        for a, c in before:
            if a.c is not c:
                e.fail("arguments unchanged", repr(a))
