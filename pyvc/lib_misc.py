"""Standard library and third-party modules other than numpy and cantera.
The behaviour given here is assumed (it is the contract of the dependency)."""
import os.path as _osp
import builtins as _b
import z3
from fractions import Fraction
from . import core, values as V, arrays as A
from .core import (E, Ref, Unsupported, NeedsInvariant, ExcV, throw, I, R, B, Str, And, Or, Not, Implies, ite, boolt, num, real, strt,
                   is_z3, is_num, is_bool, is_str, in_range, forall, exists, simp, lit)
from .values import Elem, IfS, For, SetSeg, StrV, Fmt, DictC, SetC, ArrC, SeqArr, Axis, Opt, alloc, setc, mk_str
from .interp import (Native, LibMod, TypeV, ExcCls, Ext, ext, upd, Wrapped, NTV, merge, kterm, merge_lazy)
from .lib import native, STARTSWITH, ENDSWITH

Mod = z3.DeclareSort("Mod")
JOIN = z3.Function("JOIN", Str, Str, Str)
ROOT = z3.Function("ROOT", Str, Str)
EXTN = z3.Function("EXTN", Str, Str)
BASEN = z3.Function("BASEN", Str, Str)
DIRN = z3.Function("DIRN", Str, Str)
ABSP = z3.Function("ABSP", Str, Str)
UNDERP = z3.Function("UNDERP", Str, Str, B)      # file is in (temporary) directory
FS_HAS = z3.Function("FS_HAS", Str, B)
FS_MOD = z3.Function("FS_MOD", Str, Mod)
CPU = z3.Int("cpu_count")


def axioms():
    p = E.prover
    a, b = z3.Const("a", Str), z3.Const("b", Str)
    p.axiom("JOIN", z3.ForAll([b], JOIN(lit(""), b) == b))


class FS(Ext):
    """ghost file system: which paths exist, the model each holds, and other contents"""
    name = "file system"


FSTAG = FS()


def new_fs():
    return ext(FSTAG, has=lambda x: FS_HAS(x), mod=lambda x: FS_MOD(x), other=lambda x: None, log=())


def fs_remove(fs, p):
    h0 = fs.c["has"]
    upd(fs, has=lambda x: And(h0(x), x != p), log=fs.c["log"] + (("remove", p),))


def fs_write(fs, p, mod=None, other=None):
    h0, m0, o0 = fs.c["has"], fs.c["mod"], fs.c["other"]
    n = dict(has=lambda x: Or(h0(x), x == p), log=fs.c["log"] + (("write", p),))
    if mod is not None:
        n["mod"] = lambda x: ite(x == p, mod, m0(x))
    if other is not None:
        def get(x):
            if x.eq(p):
                return other
            if E.entails(x != p):
                return o0(x)
            if E.entails(x == p):
                return other
            return other if E.decide(x == p) else o0(x)
        n["other"] = get
    upd(fs, **n)


class TmpDir(Ext):
    name = "TemporaryDirectory"

    def enter(self, r):
        return r.c["name"]

    def exit(self, r):
        fs = r.c["fs"]
        t = r.c["name"]
        h0 = fs.c["has"]
        upd(fs, has=lambda x: And(h0(x), Not(UNDERP(x, t))), log=fs.c["log"] + (("rmtree", t),))


class Pool(Ext):
    """multiprocessing.Pool: map applies the function to every job once and returns
    the results in the order of the jobs, whatever the completion order"""
    name = "Pool"

    def m_map(self, r, f, jobs, chunksize=None):
        return r.c["ip"].builtins["map"].f(f, jobs)

    m_imap = m_map

    def m_starmap(self, r, f, jobs, chunksize=None):
        raise Unsupported("Pool.starmap")

    def m_imap_unordered(self, r, f, jobs, chunksize=None):
        ip = r.c["ip"]
        res = ip.builtins["map"].f(f, jobs)
        n = V.seq_len(res.c)
        from .interp import get_noforks
        perm = E.func("perm", I, I)
        i, j = z3.Ints("i j")
        E.assume(forall([i], Implies(in_range(i, n), in_range(perm(i), n))))
        E.assume(forall([i, j], Implies(And(in_range(i, n), in_range(j, n), perm(i) == perm(j)), i == j)))
        k = z3.FreshConst(I, "k")
        return alloc("list", (For(k, n, (Elem(get_noforks(res.c, perm(k))),)),))

    def m_close(self, r):
        return None

    def m_join(self, r):
        return None

    def m_terminate(self, r):
        return None


class Counter(Ext):
    name = "count"

    def next(self, r):
        v = r.c["n"]
        upd(r, n=V.add(v, 1))
        return v


class OutFile(Ext):
    """text file opened for writing; the content is the sequence of strings written"""
    name = "file"

    def m_write(self, r, s):
        upd(r, parts=V.merge_lits(tuple(r.c["parts"]) + V.str_parts(s)))
        return None

    def m_writelines(self, r, it):
        ip = r.c["ip"]
        for g in ip.iter_seq(it):
            if not isinstance(g, Elem):
                raise Unsupported("writelines of a symbolic sequence")
            self.m_write(r, g.v)

    def m_close(self, r):
        self.exit(r)

    def exit(self, r):
        fs = r.c["ip"].fs
        fs_write(fs, r.c["path"], other=mk_str(r.c["parts"]))


class InFile(Ext):
    name = "input file"

    def m_read(self, r):
        return r.c["content"]


class H5File(Ext):
    name = "h5py.File"

    def m_create_group(self, r, name):
        g = ext(H5GRP, data=alloc("dict", DictC(items=())), attrs=alloc("dict", DictC(items=())))
        r.c["ip"].setitem(r.c["groups"], name, g)
        return g

    def getitem(self, r, i):
        return r.c["ip"].getitem(r.c["groups"], i)

    def exit(self, r):
        if r.c["mode"] in ("w", "a"):
            fs_write(r.c["ip"].fs, r.c["path"], other=r.c["groups"])

    def m_close(self, r):
        self.exit(r)


class H5Grp(Ext):
    name = "h5py.Group"

    def m_create_dataset(self, r, name, data=None, **k):
        d = A.copy(data) if A.isarr(data) else data
        d0 = r.c["data"]
        setc(d0, DictC(items=d0.c.items + ((name, d),)))
        return d

    def getitem(self, r, i):
        for k, v in r.c["data"].c.items:
            if k == i:
                return v
        throw(KeyError, i)

    def setitem(self, r, i, v):
        self.m_create_dataset(r, i, v)


TMP, POOL, COUNTER, OUTF, INF, H5F, H5GRP = TmpDir(), Pool(), Counter(), OutFile(), InFile(), H5File(), H5Grp()


def pathterm(p):
    return strt(p)


def uf1(f, pyf):
    def g(p):
        if isinstance(p, str):
            r = pyf(p)
            return r
        return f(strt(p))
    return g


def make(ip, m):
    axioms()
    ip.fs = new_fs()

    def mod(name, d):
        m[name] = LibMod(name, d)
        return m[name]

    # ---- logging: no effect on results
    nop = lambda *a, **k: None
    mod("logging", {n: Native("logging." + n, nop) for n in ("info", "warning", "error", "debug", "critical", "exception", "basicConfig", "shutdown")})
    m["logging"].d["INFO"] = 20
    m["logging"].d["FileHandler"] = Native("FileHandler", nop)
    m["logging"].d["StreamHandler"] = Native("StreamHandler", nop)

    # ---- os
    osd, pd = {}, {}
    mod("os", osd)
    osd["path"] = m["os.path"] = LibMod("os.path", pd)
    osd["sep"] = "/"

    @native(pd)
    def join(*ps):
        r = ps[0]
        for p in ps[1:]:
            if isinstance(r, str) and r == "":
                r = p
            elif isinstance(r, str) and isinstance(p, str):
                r = _osp.join(r, p)
            else:
                r = JOIN(strt(r), strt(p))
        return r

    def isfile(p):
        return simp(boolt(ip.fs.c["has"](strt(p))))
    for n in ("isfile", "exists"):
        pd[n] = Native(n, isfile)
    pd["basename"] = Native("basename", uf1(BASEN, _osp.basename))
    pd["dirname"] = Native("dirname", uf1(DIRN, _osp.dirname))
    pd["abspath"] = Native("abspath", uf1(ABSP, lambda p: "/cwd/" + p if not p.startswith("/") else p))
    pd["isabs"] = Native("isabs", lambda p: STARTSWITH(lit("/"), strt(p)) if not isinstance(p, str) else p.startswith("/"))
    pd["isdir"] = Native("isdir", lambda p: z3.Function("ISDIR", Str, B)(strt(p)))

    @native(pd)
    def splitext(p):
        if isinstance(p, str):
            return _osp.splitext(p)
        t = strt(p)
        return (ROOT(t), EXTN(t))

    @native(pd)
    def split(p):
        if isinstance(p, str):
            return _osp.split(p)
        t = strt(p)
        return (DIRN(t), BASEN(t))

    @native(osd)
    def remove(p):
        t = strt(p)
        if not E.decide(ip.fs.c["has"](t)):
            throw(FileNotFoundError, p)
        fs_remove(ip.fs, t)
    osd["unlink"] = osd["remove"]

    @native(osd)
    def makedirs(p, exist_ok=False, **k):
        return None

    @native(osd)
    def getcwd():
        return "/cwd"

    @native(osd)
    def rename(a, b):
        s, d = strt(a), strt(b)
        fs = ip.fs
        if not E.decide(fs.c["has"](s)):
            throw(FileNotFoundError, a)
        md = fs.c["mod"](s)
        fs_remove(fs, s)
        fs_write(fs, d, mod=md)
    osd["replace"] = osd["rename"]

    # ---- small modules
    mod("itertools", {"count": Native("count", lambda start=0: ext(COUNTER, n=start))})

    @native(m["itertools"].d)
    def chain(*its):
        out = ()
        for it in its:
            out += tuple(ip.iter_seq(it))
        return alloc("list", out)

    hd = {}
    mod("heapq", hd)

    @native(hd)
    def heappush(h, x):
        f = ip.lib.get("%heappush")
        if f is None:
            raise Unsupported("heap without a contract")
        return f(h, x)

    @native(hd)
    def heappop(h):
        f = ip.lib.get("%heappop")
        if f is None:
            raise Unsupported("heap without a contract")
        return f(h)

    opd = {}
    mod("operator", opd)

    @native(opd)
    def attrgetter(*ns):
        if _b.len(ns) != 1 or "." in ns[0]:
            raise Unsupported("attrgetter")
        return Native("attrgetter", lambda o: ip.getattr(o, ns[0]))

    @native(opd)
    def itemgetter(*ns):
        if _b.len(ns) != 1:
            raise Unsupported("itemgetter")
        return Native("itemgetter", lambda o: ip.getitem(o, ns[0]))

    fd = {}
    mod("functools", fd)

    @native(fd)
    def partial(f, *a, **k):
        return Native("partial", lambda *b, **kk: ip.call(f, _b.list(a) + _b.list(b), {**k, **kk}))

    mpd = {}
    mod("multiprocessing", mpd)
    mpd["Pool"] = Native("Pool", lambda processes=None, **k: ext(POOL, ip=ip, processes=processes))

    @native(mpd)
    def cpu_count():
        E.assume(CPU >= 1)
        return CPU

    tfd = {}
    mod("tempfile", tfd)

    @native(tfd)
    def TemporaryDirectory(*a, **k):
        t = E.const("tmpdir", Str)
        x = z3.Const("f!", Str)
        E.assume(t != lit(""))
        E.assume(z3.ForAll([x], UNDERP(JOIN(t, x), t), patterns=[JOIN(t, x)]))
        h0 = ip.fs.c["has"]
        E.assume(forall([x], Implies(UNDERP(x, t), Not(h0(x)))))
        for f in ip.lib.get("%tmpfacts", ()):
            f(t)
        return ext(TMP, name=t, fs=ip.fs)

    mod("typing", {n: TypeV(n) for n in ("NamedTuple", "Dict", "List", "Any", "Optional", "Tuple", "Union", "Sequence", "Callable", "Iterable")})
    mod("abc", {"ABC": TypeV("ABC"), "abstractmethod": Native("abstractmethod", lambda f: f)})
    mod("contextlib", {"contextmanager": Native("contextmanager", lambda f: f)})
    mod("shutil", {})
    mod("errno", {"ENOENT": 2})
    mod("copy", {})

    @native(m["copy"].d)
    def deepcopy(x):
        return deep(x)

    @native(m["copy"].d, "copy")
    def copy_(x):
        if isinstance(x, Ref) and x.kind in ("list", "dict", "set"):
            return alloc(x.kind, x.c)
        if isinstance(x, (NTV, tuple, str, int, Fraction)) or is_z3(x) or x is None:
            return x
        raise Unsupported("copy")

    sd = {}
    mod("sys", sd)
    sd["argv"] = alloc("list", ())

    @native(sd)
    def exit(code=0):
        throw(SystemExit, code)

    mod("argparse", {"ArgumentParser": Native("ArgumentParser", lambda *a, **k: ip.lib["%argparser"](*a, **k))})
    mod("yaml", {})

    @native(m["yaml"].d)
    def safe_load(f):
        return f.c["content"]

    @native(m["yaml"].d)
    def YAMLError(*a):
        raise Unsupported("YAMLError")

    tw = {}
    mod("textwrap", tw)

    @native(tw)
    def fill(s, *a, **k):
        f = ip.lib.get("%fill")
        if f is None:
            raise Unsupported("textwrap.fill")
        return f(s, *a, **k)

    # ---- h5py
    h5 = {}
    mod("h5py", h5)

    @native(h5)
    def File(path, mode="r"):
        p = strt(path)
        if mode in ("w", "a"):
            return ext(H5F, ip=ip, path=p, mode=mode, groups=alloc("dict", DictC(items=())))
        c = ip.fs.c["other"](p)
        if c is None:
            throw(FileNotFoundError, path)
        return ext(H5F, ip=ip, path=p, mode=mode, groups=c)

    # ---- scipy
    mod("scipy", {})
    so = {}
    m["scipy.optimize"] = LibMod("scipy.optimize", so)
    m["scipy"].d["optimize"] = m["scipy.optimize"]

    @native(so)
    def root(*a, **k):
        f = ip.lib.get("%root")
        if f is None:
            raise Unsupported("scipy.optimize.root without a contract")
        return f(*a, **k)

    # ---- files
    def open_(path, mode):
        p = strt(path)
        if "w" in mode:
            return ext(OUTF, ip=ip, path=p, parts=())
        f = ip.lib.get("%read")
        if f is not None:
            return ext(INF, content=f(p))
        raise Unsupported("open for reading")
    m["%open"] = open_

    def genfromtxt(path, delimiter):
        p = strt(path)
        c = ip.fs.c["other"](p)
        f = ip.lib.get("%table")
        if c is None and f is not None:
            return f(p)
        if c is None:
            raise Unsupported("reading of a table")
        return c
    m["%genfromtxt"] = genfromtxt

    def savetxt(path, data, delimiter):
        fs_write(ip.fs, strt(path), other=A.copy(data))
    m["%savetxt"] = savetxt

    def sort(ip, s, kf):
        raise Unsupported("sorted() of a symbolic sequence")
    m["%sort"] = sort

    from . import lib_nx
    lib_nx.make(ip, m)


def deep(x):
    if isinstance(x, Ref):
        if x.kind in ("list",):
            return alloc("list", tuple(Elem(deep(g.v)) if isinstance(g, Elem) else g for g in x.c))
        if x.kind == "dict":
            if x.c.concrete:
                return alloc("dict", DictC(items=tuple((k, deep(v)) for k, v in x.c.items)))
            return alloc("dict", x.c)
        if x.kind == "set":
            return alloc("set", x.c)
        if x.kind == "arr":
            return A.copy(x)
        raise Unsupported("deepcopy of an object")
    if isinstance(x, tuple):
        return tuple(deep(y) for y in x)
    return x
