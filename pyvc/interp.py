"""AST interpreter over the real sources of pymars, on symbolic values."""
import ast, os
import z3
from fractions import Fraction
from . import core
from .core import (E, Ref, Unsupported, NeedsInvariant, PathEnd, ExcV, ProgExc, throw, I, R, B, Str, And, Or, Not, ite, boolt, num,
                   real, strt, is_z3, is_num, is_bool, is_str, in_range, forall, exists, simp, coerce2)
from . import values as V
from .values import Elem, IfS, For, Hole, SetSeg, StrV, Fmt, Join, DictC, SetC, Opt, alloc, setc, mk_str, str_parts

REPO = os.environ.get("PYMARS_REPO", "/repo")
SRC = os.path.join(REPO, "src", "pymars")


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class ReturnExc(Exception):
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------- callables
class Fn:
    def __init__(self, node, env, defaults, kwdefaults, mod, qual):
        self.node, self.env, self.defaults, self.kwdefaults, self.mod, self.qual = node, env, defaults, kwdefaults, mod, qual
        self.name = getattr(node, "name", "<lambda>")
        self.decos = ()


class BoundM:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Native:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<native {self.name}>"


class Cls:
    def __init__(self, name, bases, mod):
        self.name, self.bases, self.mod = name, bases, mod
        self.d = Ref("cls", {}, name)
        self.fields = None          # NamedTuple field names
        self.py = None

    def lookup(self, name):
        if name in self.d.c:
            return self.d.c[name], self
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += b.mro()
        return out


class ExcCls:
    def __init__(self, py):
        self.py = py
        self.name = py.__name__


class CanteraError(RuntimeError):
    pass


class LinAlgError(ValueError):
    pass


class NTV:
    """instance of a NamedTuple class"""
    __slots__ = ("cls", "vals")

    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)

    def subst(self, pairs):
        return NTV(self.cls, V._subst(self.vals, pairs))

    def get(self, n):
        return self.vals[self.cls.fields.index(n)]

    def __repr__(self):
        return f"{self.cls.name}{self.vals}"


class ModV:
    def __init__(self, name):
        self.name = name
        self.env = Ref("mod", {}, name)


class LibMod:
    def __init__(self, name, d=None):
        self.name, self.d = name, ({} if d is None else d)


class TypeV:
    """builtin type object"""
    def __init__(self, name):
        self.name = name


class Ext:
    """behaviour of a library object; state lives in ref.c (a dict)"""
    name = "ext"

    def getattr(self, r, n):
        g = getattr(self, "g_" + n, None)
        if g is not None:
            return g(r)
        m = getattr(self, "m_" + n, None)
        if m is not None:
            return Native(f"{self.name}.{n}", lambda *a, **k: m(r, *a, **k))
        if n in r.c and not n.startswith("_"):
            return r.c[n]
        return self.missing(r, n)

    def missing(self, r, n):
        raise Unsupported(f"attribute {n} of {self.name}")

    def hasattr(self, r, n):
        return hasattr(self, "g_" + n) or hasattr(self, "m_" + n) or n in r.c

    def setattr(self, r, n, v):
        s = getattr(self, "s_" + n, None)
        if s is None:
            raise Unsupported(f"assignment to {n} of {self.name}")
        s(r, v)

    def call(self, r, *a, **k):
        raise Unsupported(f"call of {self.name}")

    def getitem(self, r, i):
        raise Unsupported(f"indexing of {self.name}")

    def setitem(self, r, i, v):
        raise Unsupported(f"indexed assignment to {self.name}")

    def iter(self, r):
        raise Unsupported(f"iteration over {self.name}")

    def enter(self, r):
        return r

    def exit(self, r):
        pass

    def truth(self, r):
        return True


def ext(tag, **c):
    return alloc("ext", c, tag)


def upd(r, **kw):
    setc(r, {**r.c, **kw})


_src_cache = {}


def load_source(name):
    path = os.path.join(SRC, name + ".py")
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _src_cache:
        with open(path) as f:
            src = f.read()
        _src_cache[key] = (ast.parse(src), src)
    return _src_cache[key]


class Undef:
    pass


UNDEF = Undef()


INLINE = object()      # returned by a contract that does not cover the call: the body is used


class Interp:
    def __init__(self):
        from . import lib
        self.mods = {}
        self.joins = False        # join alternatives of conditions and simple assignments
        self.contracts = {}       # qualified name -> fn(interp, bound args dict) -> value
        self.loop_rule = None    # (loop context, sequence) -> contract or None
        self.loop_contracts = {}  # (qualified function, ordinal of loop) -> contract
        self.lib = lib.make(self)
        self.builtins = lib.builtins(self)
        self.depth = 0
        self.stack = []
        self.callhook = {}

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name not in self.mods:
            m = ModV(name)
            self.mods[name] = m
            tree, _ = load_source(name)
            fr = m.env
            setc(fr, {"__name__": "pymars." + name, "__file__": "/site/pymars/" + name + ".py"})
            self.exec_block(tree.body, [fr], m, name)
        return self.mods[name]

    def fn(self, mod, name):
        v = self.module(mod).env.c.get(name)
        if v is None:
            raise Unsupported(f"no function {name} in {mod}.py")
        return v

    def get_class(self, mod, name):
        return self.fn(mod, name)

    # ------------------------------------------------------------ names
    def lookup(self, env, name):
        for fr in reversed(env):
            v = fr.c.get(name, UNDEF)
            if v is not UNDEF:
                if type(v).__name__ == "Poison":
                    if v.late is not None:
                        v.late()
                        v = fr.c[name]
                        if type(v).__name__ != "Poison":
                            return v
                    raise NeedsInvariant(f"{name} carries a value from one iteration to the next")
                return v
        if name in self.builtins:
            return self.builtins[name]
        throw(NameError, name)

    def store_name(self, env, name, v):
        fr = env[-1]
        nl = fr.c.get("%nonlocal")
        if nl and name in nl:
            for f2 in reversed(env[:-1]):
                if name in f2.c:
                    fr = f2
                    break
        setc(fr, {**fr.c, name: v})

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env, mod, qual):
        for st in body:
            self.exec(st, env, mod, qual)

    def exec(self, st, env, mod, qual):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} ({mod.name}:{st.lineno})")
        try:
            m(st, env, mod, qual)
        except Unsupported as e:
            if not getattr(e, "loc", None):
                e.loc = f"{mod.name}.py:{st.lineno}"
                e.args = (f"{e.args[0] if e.args else ''} [{mod.name}.py:{st.lineno}]",)
            raise

    def x_Expr(self, st, env, mod, qual):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env, mod)

    def x_Pass(self, st, env, mod, qual):
        pass

    def x_Assign(self, st, env, mod, qual):
        v = self.ev(st.value, env, mod)
        for t in st.targets:
            self.assign(t, v, env, mod)

    def x_AnnAssign(self, st, env, mod, qual):
        if isinstance(st.target, ast.Name) and env[-1].kind == "cls":
            ann = env[-1].c.get("%ann", ())
            setc(env[-1], {**env[-1].c, "%ann": ann + (st.target.id,)})
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, mod), env, mod)

    def x_AugAssign(self, st, env, mod, qual):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            v = self.iop(st.op, cur, self.ev(st.value, env, mod))
            if not (isinstance(v, Ref) and v is cur):
                self.store_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            cur = self.getattr(o, t.attr)
            v = self.iop(st.op, cur, self.ev(st.value, env, mod))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            i = self.ev_index(t.slice, env, mod)
            cur = self.getitem(o, i)
            v = self.iop(st.op, cur, self.ev(st.value, env, mod))
            self.setitem(o, i, v)
        else:
            raise Unsupported("augmented assignment target")

    def iop(self, op, cur, v):
        if isinstance(cur, Ref) and cur.kind == "list" and isinstance(op, ast.Add):
            setc(cur, cur.c + tuple(self.iter_seq(v)))
            return cur
        if isinstance(cur, Ref) and cur.kind == "arr":
            r = self.binop(op, cur, v)
            from . import arrays
            arrays.assign_all(cur, r)
            return cur
        if isinstance(cur, Ref) and cur.kind == "set":
            r = self.binop(op, cur, v)
            setc(cur, r.c)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.store_name(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vs):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            self.setitem(o, self.ev_index(t.slice, env, mod), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        n = len(elts)
        star = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        if isinstance(v, NTV):
            v = v.vals
        if isinstance(v, tuple):
            vs = list(v)
        else:
            s = self.iter_seq(v)
            if not star and not all(isinstance(g, Elem) for g in s):
                L = V.seq_len(s)
                if not E.decide(num(L) == n):
                    throw(ValueError, "unpack")
                vs = [V.seq_get(s, i) for i in range(n)]
            else:
                vs = self.concrete(s)
        if star:
            i = star[0]
            k = len(vs) - (n - 1)
            if k < 0:
                throw(ValueError, "unpack")
            return vs[:i] + [alloc("list", tuple(Elem(x) for x in vs[i:i + k]))] + vs[i + k:]
        if len(vs) != n:
            throw(ValueError, "unpack")
        return vs

    def join_assign(self, test, st, env, mod):
        """if test: name = value, for numbers, without a fork"""
        if st.orelse or len(st.body) != 1 or not isinstance(st.body[0], ast.Assign) or len(st.body[0].targets) != 1:
            return False
        t = st.body[0].targets[0]
        if not isinstance(t, ast.Name):
            return False
        try:
            c = boolt(self.truth_term(test))
        except Unsupported:
            return False
        old = env.c.get(t.id) if isinstance(env, Ref) else None
        if not (is_z3(old) and isinstance(old, z3.ArithRef)) or z3.is_true(simp(c)) or z3.is_false(simp(c)):
            return False
        ok, v = E.speculate(c, lambda: self.ev(st.body[0].value, env, mod))
        if not ok or not (is_z3(v) and v.sort() == old.sort()):
            return False
        self.store_name(env, t.id, simp(z3.If(c, v, old)))
        return True

    def x_If(self, st, env, mod, qual):
        test = self.ev(st.test, env, mod)
        if self.joins and self.join_assign(test, st, env, mod):
            return
        if self.truth(test):
            self.exec_block(st.body, env, mod, qual)
        else:
            self.exec_block(st.orelse, env, mod, qual)

    def x_Return(self, st, env, mod, qual):
        raise ReturnExc(self.ev(st.value, env, mod) if st.value is not None else None)

    def x_Break(self, st, env, mod, qual):
        raise BreakExc()

    def x_Continue(self, st, env, mod, qual):
        raise ContinueExc()

    def x_Assert(self, st, env, mod, qual):
        if not self.truth(self.ev(st.test, env, mod)):
            msg = self.ev(st.msg, env, mod) if st.msg is not None else None
            throw(AssertionError, msg)

    def x_Raise(self, st, env, mod, qual):
        if st.exc is None:
            cur = self.lookup(env, "%exc")
            raise ProgExc(cur)
        v = self.ev(st.exc, env, mod)
        if isinstance(v, ExcCls):
            v = ExcV(v.py)
        if isinstance(v, Ref) and v.kind == "obj":
            for c in v.tag.mro():
                for b in c.bases:
                    if isinstance(b, ExcCls):
                        raise ProgExc(ExcV(b.py, (v,)))
        if not isinstance(v, ExcV):
            raise Unsupported("raise of a non-exception")
        raise ProgExc(v)

    def x_Try(self, st, env, mod, qual):
        try:
            try:
                self.exec_block(st.body, env, mod, qual)
            except ProgExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.ev(h.type, env, mod)):
                        if h.name:
                            self.store_name(env, h.name, e.exc)
                        self.store_name(env, "%exc", e.exc)
                        self.exec_block(h.body, env, mod, qual)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env, mod, qual)
        except (ProgExc, ReturnExc, BreakExc, ContinueExc):
            self.exec_block(st.finalbody, env, mod, qual)
            raise
        else:
            self.exec_block(st.finalbody, env, mod, qual)

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        if isinstance(t, ExcCls):
            return issubclass(exc.cls, t.py)
        if isinstance(t, Cls):
            return bool(exc.args) and isinstance(exc.args[0], Ref) and exc.args[0].kind == "obj" and t in exc.args[0].tag.mro()
        raise Unsupported("exception type")

    def x_With(self, st, env, mod, qual):
        items = list(st.items)

        def go(i):
            if i == len(items):
                self.exec_block(st.body, env, mod, qual)
                return
            cm = self.ev(items[i].context_expr, env, mod)
            if isinstance(cm, Ref) and cm.kind == "ext":
                v = cm.tag.enter(cm)
                if items[i].optional_vars is not None:
                    self.assign(items[i].optional_vars, v, env, mod)
                try:
                    go(i + 1)
                except (ProgExc, ReturnExc, BreakExc, ContinueExc):
                    cm.tag.exit(cm)
                    raise
                cm.tag.exit(cm)
            elif isinstance(cm, Ref) and cm.kind == "obj":
                v = self.call(self.getattr(cm, "__enter__"), [], {})
                if items[i].optional_vars is not None:
                    self.assign(items[i].optional_vars, v, env, mod)
                try:
                    go(i + 1)
                except ProgExc as e:
                    if not self.truth(self.call(self.getattr(cm, "__exit__"), [ExcCls(e.exc.cls), e.exc, None], {})):
                        raise
                    return
                except (ReturnExc, BreakExc, ContinueExc):
                    self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
                    raise
                self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
            else:
                raise Unsupported("with on this object")
        go(0)

    def x_FunctionDef(self, st, env, mod, qual):
        f = self.mkfn(st, env, mod, qual)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.ev(d, env, mod)
            if isinstance(dv, Native) and dv.name in ("staticmethod", "classmethod", "property", "abstractmethod", "contextmanager"):
                if dv.name != "abstractmethod":
                    v = dv.f(v)
            else:
                v = self.call(dv, [v], {})
        self.store_name(env, st.name, v)

    def mkfn(self, st, env, mod, qual):
        a = st.args
        defaults = [self.ev(d, env, mod) for d in a.defaults]
        kwd = {p.arg: self.ev(d, env, mod) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fenv = [f for f in env if f.kind != "cls"]
        return Fn(st, fenv, defaults, kwd, mod, f"{qual}.{getattr(st, 'name', '<lambda>')}")

    def x_ClassDef(self, st, env, mod, qual):
        bases = [self.ev(b, env, mod) for b in st.bases]
        c = Cls(st.name, bases, mod)
        setc(c.d, {})
        self.exec_block(st.body, env + [c.d], mod, f"{qual}.{st.name}")
        if any(isinstance(b, TypeV) and b.name == "NamedTuple" for b in bases):
            c.fields = c.d.c.get("%ann", ())
        deco = [self.ev(d, env, mod) for d in st.decorator_list]
        if deco:
            raise Unsupported("class decorator")
        self.store_name(env, st.name, c)

    def x_Import(self, st, env, mod, qual):
        for al in st.names:
            m = self.import_mod(al.name)
            if al.asname:
                self.store_name(env, al.asname, m)
            else:
                top = al.name.split(".")[0]
                self.store_name(env, top, self.import_mod(top))

    def import_mod(self, name):
        if name in self.lib:
            return self.lib[name]
        raise Unsupported(f"import of {name}")

    def x_ImportFrom(self, st, env, mod, qual):
        if st.level:
            for al in st.names:
                if st.module is None:
                    v = self.module(al.name)
                elif st.module == "_version":
                    v = "0.0.0"
                else:
                    v = self.getattr(self.module(st.module), al.name)
                self.store_name(env, al.asname or al.name, v)
        else:
            m = self.import_mod(st.module)
            for al in st.names:
                full = f"{st.module}.{al.name}"
                v = self.lib[full] if full in self.lib else self.getattr(m, al.name)
                self.store_name(env, al.asname or al.name, v)

    def x_Delete(self, st, env, mod, qual):
        for t in st.targets:
            if isinstance(t, ast.Name):
                c = dict(env[-1].c)
                c.pop(t.id, None)
                setc(env[-1], c)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                i = self.ev_index(t.slice, env, mod)
                self.delitem(o, i)
            else:
                raise Unsupported("del")

    def x_Nonlocal(self, st, env, mod, qual):
        nl = env[-1].c.get("%nonlocal", ())
        setc(env[-1], {**env[-1].c, "%nonlocal": nl + tuple(st.names)})

    def x_Global(self, st, env, mod, qual):
        raise Unsupported("global statement")

    def x_For(self, st, env, mod, qual):
        from . import loops
        it = self.ev(st.iter, env, mod)
        live = self.live_list(it)
        seq = self.iter_seq(it)

        def body(v):
            self.assign(st.target, v, env, mod)
            self.exec_block(st.body, env, mod, qual)
        loops.run_for(self, seq, body, st, env, mod, qual, live=live,
                      orelse=(lambda: self.exec_block(st.orelse, env, mod, qual)) if st.orelse else None)

    def live_list(self, it):
        return it if isinstance(it, Ref) and it.kind == "list" else None

    def x_While(self, st, env, mod, qual):
        from . import loops
        loops.run_while(self, lambda: self.truth(self.ev(st.test, env, mod)),
                        lambda: self.exec_block(st.body, env, mod, qual), st, env, mod, qual,
                        orelse=(lambda: self.exec_block(st.orelse, env, mod, qual)) if st.orelse else None)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, mod):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} ({mod.name}:{e.lineno})")
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if v is Ellipsis:
            raise Unsupported("ellipsis")
        if isinstance(v, (int, str, bool)) or v is None:
            return v
        raise Unsupported("constant")

    def e_Name(self, e, env, mod):
        return self.lookup(env, e.id)

    def e_Attribute(self, e, env, mod):
        return self.getattr(self.ev(e.value, env, mod), e.attr)

    def e_Subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        return self.getitem(o, self.ev_index(e.slice, env, mod))

    def ev_index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, env, mod)
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env, mod) for x in s.elts)
        return self.ev(s, env, mod)

    def e_BinOp(self, e, env, mod):
        return self.binop(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod))

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else Not(t)
        if isinstance(v, Ref) and v.kind == "arr":
            from . import arrays
            if isinstance(e.op, ast.USub):
                return arrays.map1(v, lambda x: simp(-num(x)))
            if isinstance(e.op, ast.Invert):
                return arrays.map1(v, lambda x: Not(x))
            if isinstance(e.op, ast.UAdd):
                return v
        if isinstance(e.op, ast.USub):
            if isinstance(v, (bool, int, Fraction)):
                return -v
            return simp(-num(v))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, env, mod)
            if i == len(e.values) - 1:
                return v
            if self.joins and is_z3(v) and isinstance(v, (z3.BoolRef, z3.ArithRef)):
                c = simp(boolt(self.truth_term(v)))
                if not isand:
                    c = Not(c)
                rest = e.values[i + 1:]
                node = rest[0] if len(rest) == 1 else ast.copy_location(ast.BoolOp(e.op, rest), e)
                ok, w = E.speculate(c, lambda: self.ev(node, env, mod))
                if ok and isinstance(w, (bool, z3.BoolRef)) and isinstance(v, z3.BoolRef):
                    return simp(And(v, w) if isand else Or(v, w))
                if ok and isinstance(v, z3.ArithRef) and v.is_int() and isinstance(w, (int, z3.ArithRef)) and not isinstance(w, bool) and num(w).is_int():
                    return simp(z3.If(c, num(w), v))
            t = self.truth(v)
            if isand and not t:
                return v if not is_z3(v) or not isinstance(v, z3.BoolRef) else False
            if not isand and t:
                return v if not is_z3(v) or not isinstance(v, z3.BoolRef) else True
        return v

    def e_Compare(self, e, env, mod):
        l = self.ev(e.left, env, mod)
        res = []
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env, mod)
            c = self.compare(op, l, r)
            if len(e.ops) > 1:
                if isinstance(c, Ref):
                    raise Unsupported("chained array comparison")
                if not self.truth(c):
                    return False
            l = r
        return c

    def e_Call(self, e, env, mod):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.super_(env, mod)
        f = self.ev(e.func, env, mod)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete(self.iter_seq(self.ev(a.value, env, mod)))
            else:
                args.append(self.ev(a, env, mod))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, mod)
                if not (isinstance(d, Ref) and d.kind == "dict" and d.c.concrete):
                    raise Unsupported("** of a symbolic dictionary")
                kw.update(dict(d.c.items))
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        try:
            return self.call(f, args, kw)
        except TypeError as ex:
            if isinstance(f, Native):
                raise Unsupported(f"call of {f.name}: {ex}")
            raise

    def super_(self, env, mod):
        s = self.lookup(env, "%self")
        c = self.lookup(env, "%cls")
        return SuperV(s, c)

    def e_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def e_List(self, e, env, mod):
        return alloc("list", self.elts(e.elts, env, mod))

    def elts(self, es, env, mod):
        out = ()
        for x in es:
            if isinstance(x, ast.Starred):
                out += tuple(self.iter_seq(self.ev(x.value, env, mod)))
            else:
                out += (Elem(self.ev(x, env, mod)),)
        return out

    def e_Tuple(self, e, env, mod):
        s = self.elts(e.elts, env, mod)
        if not all(isinstance(g, Elem) for g in s):
            raise Unsupported("tuple of symbolic length")
        return tuple(g.v for g in s)

    def e_Set(self, e, env, mod):
        return self.mkset(self.elts(e.elts, env, mod))

    def mkset(self, seq):
        seq = tuple(seq)
        def pred(x):
            return V.seq_contains(seq, x)
        items = tuple(g.v for g in seq) if all(isinstance(g, Elem) for g in seq) else None
        return alloc("set", SetC(pred, seq, items))

    def e_Dict(self, e, env, mod):
        d = alloc("dict", DictC(items=()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, env, mod))
            else:
                kk = self.ev(k, env, mod)
                self.setitem(d, kk, self.ev(v, env, mod))
        return d

    def dict_update(self, d, o):
        if isinstance(o, Ref) and o.kind == "dict" and o.c.concrete:
            for k, v in o.c.items:
                self.setitem(d, k, v)
        else:
            raise Unsupported("update by a symbolic dictionary")

    def e_Lambda(self, e, env, mod):
        return self.mkfn(e, env, mod, "")

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def e_JoinedStr(self, e, env, mod):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(Elem(x.value))
            else:
                v = self.ev(x.value, env, mod)
                spec = ""
                if x.format_spec is not None:
                    spec = self.ev(x.format_spec, env, mod)
                    if not isinstance(spec, str):
                        raise Unsupported("symbolic format specification")
                if x.conversion not in (-1, 115):
                    raise Unsupported("format conversion")
                parts += list(self.fmt(v, spec))
        return mk_str(parts)

    def fmt(self, v, spec=""):
        """parts of the text of v"""
        if spec == "" and isinstance(v, (str, StrV)):
            return str_parts(v)
        if isinstance(v, str):
            try:
                return (Elem(format(v, spec)),)
            except ValueError:
                throw(ValueError, "format")
        if isinstance(v, bool):
            return (Elem(format(v, spec)),)
        if isinstance(v, int):
            return (Elem(format(v, spec)),)
        if isinstance(v, Fraction):
            return (Elem(Fmt(v, spec)),)
        if v is None and not spec:
            return (Elem("None"),)
        if isinstance(v, StrV) or is_z3(v):
            return (Elem(Fmt(v, spec)),)
        if isinstance(v, (ExcV,)):
            return (Elem("<exc>"),)
        if isinstance(v, Ref) or isinstance(v, (tuple, NTV, Opt)):
            return (Elem(Fmt(v, spec)),)
        return (Elem(Fmt(v, spec)),)

    def comp(self, gens, env, mod, emit):
        """runs emit(env2) for every element of the comprehension, as nested loops"""
        from . import loops
        fr = alloc("frame", {}, "comp")
        env2 = env + [fr]
        first = self.ev(gens[0].iter, env, mod)

        def level(i, it):
            g = gens[i]
            seq = self.iter_seq(it)

            def body(v):
                self.assign(g.target, v, env2, mod)
                for c in g.ifs:
                    if not self.truth(self.ev(c, env2, mod)):
                        return
                if i + 1 < len(gens):
                    level(i + 1, self.ev(gens[i + 1].iter, env2, mod))
                else:
                    emit(env2)
            loops.run_for(self, seq, body, None, env2, mod, "")
        level(0, first)

    def e_ListComp(self, e, env, mod):
        out = alloc("list", ())

        def emit(env2):
            v = self.ev(e.elt, env2, mod)
            setc(out, out.c + (Elem(v),))
        self.comp(e.generators, env, mod, emit)
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env, mod):
        l = self.e_ListComp(e, env, mod)
        return self.mkset(l.c)

    def e_DictComp(self, e, env, mod):
        out = alloc("dict", DictC(items=()))

        def emit(env2):
            k = self.ev(e.key, env2, mod)
            self.setitem(out, k, self.ev(e.value, env2, mod))
        self.comp(e.generators, env, mod, emit)
        return out

    # ------------------------------------------------------------ truth, len, iteration
    def truth_term(self, v):
        """bool or z3 Bool"""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, str):
            return v != ""
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return v != 0
        if is_z3(v) and v.sort() == Str:
            return v != core.lit("")
        if isinstance(v, StrV):
            if any(isinstance(g, Elem) and isinstance(g.v, str) and g.v for g in v.parts):
                return True
            raise Unsupported("emptiness of a built string")
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, NTV):
            return True
        if isinstance(v, Opt):
            t = self.truth_term(v.v)
            return And(v.cond, t)
        if isinstance(v, Ref):
            if v.kind == "list":
                L = V.seq_len(v.c)
                return L > 0 if isinstance(L, int) else num(L) > 0
            if v.kind == "dict":
                if v.c.concrete:
                    return len(v.c.items) > 0
                if v.c.keys is None:
                    raise Unsupported("emptiness of a symbolic dictionary")
                L = V.seq_len(v.c.keys)
                return L > 0 if isinstance(L, int) else num(L) > 0
            if v.kind == "set":
                if v.c.seq is not None:
                    L = V.seq_len(v.c.seq)
                    return L > 0 if isinstance(L, int) else num(L) > 0
                raise Unsupported("emptiness of a set")
            if v.kind == "arr":
                from . import arrays
                return arrays.truth(v)
            if v.kind == "ext":
                return v.tag.truth(v)
            return True
        return True

    def truth(self, v):
        return E.decide(self.truth_term(v))

    def length(self, v):
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, NTV):
            return len(v.vals)
        if isinstance(v, Ref):
            if v.kind == "list":
                return V.seq_len(v.c)
            if v.kind == "dict":
                if v.c.concrete:
                    return len(v.c.items)
                if v.c.keys is None:
                    raise Unsupported("size of a symbolic dictionary")
                return V.seq_len(v.c.keys)
            if v.kind == "set":
                return set_len(self, v.c)
            if v.kind == "arr":
                from . import arrays
                return arrays.length(v)
            if v.kind == "ext" and hasattr(v.tag, "len"):
                return v.tag.len(v)
        if isinstance(v, StrV) or is_str(v):
            raise Unsupported("length of a symbolic string")
        raise Unsupported("len()")

    def concrete(self, seq):
        if not all(isinstance(g, Elem) for g in seq):
            s2 = []
            for g in seq:
                if isinstance(g, Elem):
                    s2.append(g)
                elif isinstance(g, IfS):
                    return self.concrete(tuple(s2) + (g.a if E.decide(g.c) else g.b) + tuple(seq[len(s2) + 1:]))
                elif isinstance(g, For):
                    n = simp(num(g.n))
                    if z3.is_int_value(n):
                        for i in range(n.as_long()):
                            s2 += list(V.inst(g, i))
                        return self.concrete(tuple(s2) + tuple(seq[[x is g for x in seq].index(True) + 1:]))
                    raise Unsupported("concrete sequence expected")
                else:
                    raise Unsupported("concrete sequence expected")
        return [g.v for g in seq]

    def iter_seq(self, v):
        if isinstance(v, tuple):
            return tuple(Elem(x) for x in v)
        if isinstance(v, NTV):
            return tuple(Elem(x) for x in v.vals)
        if isinstance(v, str):
            return tuple(Elem(x) for x in v)
        if isinstance(v, Ref):
            if v.kind == "list":
                return v.c
            if v.kind == "dict":
                if v.c.concrete:
                    return tuple(Elem(k) for k, _ in v.c.items)
                if v.c.keys is None:
                    raise Unsupported("iteration over a symbolic dictionary")
                return v.c.keys
            if v.kind == "set":
                if v.c.items is not None and len(v.c.items) <= 1:
                    return tuple(Elem(x) for x in v.c.items)
                return (SetSeg(v.c),)
            if v.kind == "arr":
                from . import arrays
                return arrays.rows(v)
            if v.kind == "ext":
                return v.tag.iter(v)
        if isinstance(v, RangeV):
            return v.seq()
        if isinstance(v, DictView):
            return v.seq(self)
        raise Unsupported(f"iteration over {type(v).__name__}")

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        n = type(op).__name__
        from . import arrays
        if arrays.isarr(a) or arrays.isarr(b):
            if n == "MatMult":
                return arrays.matmul(a, b)
            return arrays.map2(lambda x, y: self.scalar_op(n, x, y), a, b, div=(n == "Div"))
        if n == "MatMult":
            raise Unsupported("matrix product")
        return self.scalar_op(n, a, b)

    def scalar_op(self, n, a, b):
        if n == "Add":
            if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)) or is_str(a) or is_str(b):
                if not ((is_str(a) or isinstance(a, StrV)) and (is_str(b) or isinstance(b, StrV))):
                    throw(TypeError, "can only concatenate str")
                return mk_str(str_parts(a) + str_parts(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Ref) and a.kind == "list":
                if not (isinstance(b, Ref) and b.kind == "list"):
                    if isinstance(b, (Opt,)):
                        raise Unsupported("list plus optional")
                    throw(TypeError, "can only concatenate list")
                return alloc("list", a.c + b.c)
        if n == "Mult":
            if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, str):
                return a * b
            if isinstance(b, int) and not isinstance(b, bool) and isinstance(a, str):
                return a * b
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and x.kind == "list":
                    if isinstance(y, int):
                        return alloc("list", x.c * y)
                    if is_num(y) and len(x.c) == 1 and isinstance(x.c[0], Elem):
                        return alloc("list", (For(E.const("k", I), num(y), x.c),))
        if n == "Mod" and isinstance(a, str):
            raise Unsupported("% formatting")
        if isinstance(a, Ref) and a.kind == "set" and isinstance(b, Ref) and b.kind == "set":
            x, y = a.c, b.c
            if n == "BitOr":
                return alloc("set", SetC(lambda t: Or(x.pred(t), y.pred(t)),
                             None if x.seq is None or y.seq is None else x.seq + y.seq,
                             None if x.items is None or y.items is None else x.items + y.items))
            if n == "BitAnd":
                return alloc("set", SetC(lambda t: And(x.pred(t), y.pred(t))))
            if n == "Sub":
                return alloc("set", SetC(lambda t: And(x.pred(t), Not(y.pred(t)))))
            if n == "BitXor":
                return alloc("set", SetC(lambda t: boolt(x.pred(t)) != boolt(y.pred(t))))
        if n in ("BitOr", "BitAnd", "BitXor") and is_bool(a) and is_bool(b):
            return {"BitOr": Or, "BitAnd": And, "BitXor": lambda x, y: boolt(x) != boolt(y)}[n](a, b)
        if isinstance(a, Opt) or isinstance(b, Opt):
            a = self.force(a)
            b = self.force(b)
            return self.scalar_op(n, a, b)
        if a is None or b is None:
            throw(TypeError, "unsupported operand None")
        conc = all(isinstance(x, (bool, int, Fraction)) for x in (a, b))
        if not (is_num(a) or is_bool(a)) or not (is_num(b) or is_bool(b)):
            raise Unsupported(f"operator {n} on {type(a).__name__}, {type(b).__name__}")
        if conc:
            try:
                if n == "Add":
                    return a + b
                if n == "Sub":
                    return a - b
                if n == "Mult":
                    return a * b
                if n == "Div":
                    return Fraction(a) / Fraction(b)
                if n == "FloorDiv":
                    r = a // b
                    return Fraction(r) if isinstance(a, Fraction) or isinstance(b, Fraction) else r
                if n == "Mod":
                    return a % b
                if n == "Pow":
                    if isinstance(b, int) or (isinstance(b, Fraction) and b.denominator == 1):
                        r = Fraction(a) ** int(b)
                        return int(r) if isinstance(a, int) and isinstance(b, int) and b >= 0 else r
            except ZeroDivisionError:
                throw(ZeroDivisionError, "division by zero")
        if n == "Add":
            x, y = coerce2(a, b)
            return simp(x + y)
        if n == "Sub":
            x, y = coerce2(a, b)
            return simp(x - y)
        if n == "Mult":
            x, y = coerce2(a, b)
            return simp(x * y)
        if n == "Div":
            x, y = real(a), real(b)
            return div(x, y)
        if n == "Pow":
            if isinstance(b, (int, Fraction)) and Fraction(b).denominator == 1 and 0 <= b <= 4:
                x = num(a)
                r = x
                if b == 0:
                    return 1
                for _ in range(int(b) - 1):
                    r = r * x
                return simp(r)
            return POW(real(a), real(b))
        if n == "Mod":
            x, y = coerce2(a, b)
            if x.is_int():
                return simp(x % y)
        if n == "FloorDiv":
            x, y = coerce2(a, b)
            if x.is_int():
                return simp(x / y)
        raise Unsupported(f"operator {n}")

    def force(self, v):
        """resolve an optional value on this path"""
        if isinstance(v, Opt):
            return v.v if E.decide(v.cond) else None
        return v

    def compare(self, op, a, b):
        n = type(op).__name__
        from . import arrays
        if n in ("Is", "IsNot"):
            r = self.identical(a, b)
            if n == "Is":
                return r
            return (not r) if isinstance(r, bool) else Not(r)
        if n in ("In", "NotIn"):
            r = self.contains(b, a)
            if n == "In":
                return r
            return (not r) if isinstance(r, bool) else Not(r)
        if arrays.isarr(a) or arrays.isarr(b):
            return arrays.map2(lambda x, y: self.compare(op, x, y), a, b)
        if n in ("Eq", "NotEq"):
            r = self.equal(a, b)
            r = simp(r) if is_z3(r) else r
            if is_z3(r) and z3.is_true(r):
                r = True
            elif is_z3(r) and z3.is_false(r):
                r = False
            if n == "Eq":
                return r
            return (not r) if isinstance(r, bool) else Not(r)
        a, b = self.force(a), self.force(b)
        if a is None or b is None:
            throw(TypeError, "comparison with None")
        if isinstance(a, Ref) and a.kind == "set" and isinstance(b, Ref) and b.kind == "set":
            x = z3.FreshConst(Str, "x")
            if n == "LtE":
                return forall([x], core.Implies(a.c.pred(x), b.c.pred(x)))
            if n == "GtE":
                return forall([x], core.Implies(b.c.pred(x), a.c.pred(x)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Unsupported("tuple ordering")
        if (is_str(a) or isinstance(a, StrV)) and is_num(b) or (is_str(b) or isinstance(b, StrV)) and is_num(a):
            throw(TypeError, "comparison of str and number")
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[n]
        if all(isinstance(x, (bool, int, Fraction)) for x in (a, b)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[n]
        if isinstance(a, Ref) and a.kind in ("list", "dict") or isinstance(b, Ref) and b.kind in ("list", "dict"):
            throw(TypeError, "ordering of containers")
        x, y = coerce2(a, b)
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[n]

    def identical(self, a, b):
        if isinstance(a, Opt) and b is None:
            return Not(a.cond)
        if isinstance(b, Opt) and a is None:
            return Not(b.cond)
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, (Ref, Cls, Fn)) or isinstance(b, (Ref, Cls, Fn)):
            return a is b
        if is_bool(a) and is_bool(b):
            return boolt(a) == boolt(b)
        if isinstance(a, (TypeV, ExcCls)) and isinstance(b, (TypeV, ExcCls)):
            return a.name == b.name
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a == b
        if isinstance(a, bool) != isinstance(b, bool) and (isinstance(a, bool) or isinstance(b, bool)):
            return False
        raise Unsupported("identity of scalars")

    def equal(self, a, b):
        if isinstance(a, NTV) and isinstance(b, NTV):
            return V.veq(a.vals, b.vals)
        if isinstance(a, Opt) and isinstance(b, Opt):
            raise Unsupported("comparison of optionals")
        if isinstance(a, Opt) and b is not None:
            return And(a.cond, self.equal(a.v, b))
        if isinstance(b, Opt) and a is not None:
            return And(b.cond, self.equal(a, b.v))
        if a is not None and b is not None:
            ka, kb = kind_of(a), kind_of(b)
            if ka and kb and ka != kb:
                return False
        if isinstance(a, (Cls, TypeV, ExcCls)) and isinstance(b, (Cls, TypeV, ExcCls)):
            return a is b or (type(a) is type(b) and not isinstance(a, Cls) and a.name == b.name)
        return V.veq(a, b)

    def contains(self, c, x):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported("substring test on a symbolic string")
        if isinstance(c, NTV):
            c = c.vals
        if isinstance(c, tuple):
            return self.anyof([self.equal(y, x) for y in c])
        if isinstance(c, StrV) or is_str(c):
            xt, ct_ = V.strt(x), V.strt(c)
            return SUBSTR(xt, ct_)
        if isinstance(c, Ref):
            if c.kind == "list":
                if all(isinstance(g, Elem) for g in c.c):
                    return self.anyof([self.equal(g.v, x) for g in c.c])
                return V.seq_contains(c.c, x)
            if c.kind == "dict":
                return self.dict_has(c.c, x)
            if c.kind == "set":
                return c.c.pred(x)
            if c.kind == "ext" and hasattr(c.tag, "contains"):
                return c.tag.contains(c, x)
        if isinstance(c, DictView) and c.what == "keys":
            return self.dict_has(c.d, x)
        if isinstance(c, (RangeV, DictView)):
            return V.seq_contains(self.iter_seq(c), x)
        raise Unsupported("membership test")

    def anyof(self, rs):
        out = []
        for r in rs:
            if r is True:
                return True
            if r is False:
                continue
            out.append(r)
        return Or(*out) if out else False

    # ------------------------------------------------------------ dictionaries
    def key(self, k):
        """normalised key: Python str/int/tuple when concrete, otherwise z3 term"""
        if isinstance(k, bool):
            return k
        if isinstance(k, (str, int)):
            return k
        if isinstance(k, Fraction):
            return k
        if isinstance(k, StrV):
            return k.as_term()
        if is_z3(k):
            s = simp(k)
            if z3.is_int_value(s):
                return s.as_long()
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        raise Unsupported("dictionary key")

    def dict_has(self, d, k):
        from .loops import DictHole
        k = self.key(k)
        if isinstance(d, DictHole):
            for k2, _ in d.log:
                e = self.equal(k2, k)
                if e is True or (e is not False and E.decide(e)):
                    return True
            raise NeedsInvariant("membership in a dictionary that is being built")
        if d.concrete:
            return self.anyof([self.equal(k2, k) for k2, _ in d.items])
        return d.has(kterm(k))

    def dict_get(self, d, k):
        """value; the key must be known to be present or KeyError is raised"""
        from .loops import DictHole
        k = self.key(k)
        if isinstance(d, DictHole):
            for k2, v in reversed(d.log):
                e = self.equal(k2, k)
                if e is True or (e is not False and E.decide(e)):
                    return v
            raise NeedsInvariant("entry of a dictionary that is being built")
        if d.concrete:
            for k2, v in d.items:
                e = self.equal(k2, k)
                if e is True or (e is not False and E.decide(e)):
                    return v
            throw(KeyError, k)
        if not E.decide(d.has(kterm(k))):
            throw(KeyError, k)
        return d.get(kterm(k))

    def dict_set(self, r, k, v):
        from .loops import DictHole
        k = self.key(k)
        d = r.c
        if isinstance(d, DictHole):
            setc(r, DictHole(d.s, d.loc, d.log + ((k, v),)))
            return
        if d.concrete:
            items = list(d.items)
            sym = is_z3(k) or (items and any(is_z3(k2) for k2, _ in items))
            if not sym:
                for i, (k2, _) in enumerate(items):
                    if k2 == k and type(k2) == type(k):
                        items[i] = (k2, v)
                        break
                else:
                    items.append((k, v))
                setc(r, DictC(items=tuple(items)))
                return
            # symbolic key: resolve against the present ones by forking when few
            for i, (k2, _) in enumerate(items):
                e = self.equal(k2, k)
                if e is True or (e is not False and E.decide(e)):
                    items[i] = (k2, v)
                    setc(r, DictC(items=tuple(items)))
                    return
            items.append((k, v))
            setc(r, DictC(items=tuple(items)))
            return
        kt = kterm(k)
        has0, get0 = d.has, d.get
        keys = None
        if d.keys is not None:
            h = has0(kt)
            keys = V.mk_if(boolt(h), d.keys, d.keys + (Elem(k),)) if not E.entails(boolt(h)) else d.keys
        setc(r, DictC(has=lambda x: Or(has0(x), x == kt) if same_sort(x, kt) else has0(x),
                      get=lambda x: merge_lazy(x == kt, v, lambda: get0(x)) if same_sort(x, kt) else get0(x), keys=keys))

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        if isinstance(o, Opt):
            o = self.force(o)
        if isinstance(o, NTV):
            o = o.vals
        if isinstance(o, tuple):
            if isinstance(i, slice):
                return o[self.cslice(i)]
            if is_z3(i):
                for j in range(len(o)):
                    if E.decide(i == j):
                        return o[j]
                throw(IndexError, "tuple index")
            try:
                return o[i]
            except IndexError:
                throw(IndexError, "tuple index out of range")
        if isinstance(o, str):
            if isinstance(i, slice):
                return o[self.cslice(i)]
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    throw(IndexError, "string index")
        if isinstance(o, DictView):
            throw(TypeError, "view not subscriptable")
        if isinstance(o, Ref):
            if o.kind == "list":
                if isinstance(i, slice):
                    return alloc("list", self.seq_slice(o.c, i))
                return V.seq_get(o.c, self.idx(i))
            if o.kind == "dict":
                return self.dict_get(o.c, i)
            if o.kind == "arr":
                from . import arrays
                return arrays.getitem(o, i)
            if o.kind == "ext":
                return o.tag.getitem(o, i)
        if o is None:
            throw(TypeError, "'NoneType' object is not subscriptable")
        raise Unsupported(f"subscript of {type(o).__name__}")

    def idx(self, i):
        if isinstance(i, bool):
            return int(i)
        if isinstance(i, int):
            return i
        if is_z3(i) and i.sort() == I:
            s = simp(i)
            if z3.is_int_value(s):
                return s.as_long()
            return i
        if isinstance(i, Fraction) or (is_z3(i) and i.sort() == R):
            throw(TypeError, "list indices must be integers")
        raise Unsupported("index")

    def cslice(self, s):
        for x in (s.start, s.stop, s.step):
            if x is not None and not isinstance(x, int):
                raise Unsupported("symbolic slice")
        return s

    def seq_slice(self, seq, s):
        if all(isinstance(g, Elem) for g in seq) and all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)):
            return tuple(seq[s])
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                raise Unsupported("reversed slice")
            raise Unsupported("slice step")
        if s.start in (None, 0) and s.stop is None:
            return tuple(seq)
        L = V.seq_len(seq)
        lo, hi = s.start, s.stop
        lo = 0 if lo is None else lo
        hi = L if hi is None else hi
        if isinstance(lo, int) and lo < 0:
            lo = V.add(L, lo)
        if isinstance(hi, int) and hi < 0:
            hi = V.add(L, hi)
        # drop leading/trailing concrete elements when possible
        lo_t, hi_t, L_t = num(lo), num(hi), num(L)
        lo_c = simp(z3.If(lo_t < 0, z3.IntVal(0), lo_t))
        hi_c = simp(z3.If(hi_t > L_t, L_t, hi_t))
        if E.entails(And(lo_t >= 0, hi_t <= L_t)):
            lo_c, hi_c = simp(lo_t), simp(hi_t)
        k = E.const("k", I)
        return (For(k, simp(z3.If(hi_c > lo_c, hi_c - lo_c, z3.IntVal(0))) if not E.entails(hi_c >= lo_c) else simp(hi_c - lo_c),
                    (Elem(get_noforks(seq, k + lo_c)),)),)

    def setitem(self, o, i, v):
        if isinstance(o, Ref):
            if o.kind == "list":
                i = self.idx(i)
                s = o.c
                if isinstance(i, int) and all(isinstance(g, Elem) for g in s):
                    if not -len(s) <= i < len(s):
                        throw(IndexError, "assignment index")
                    l = list(s)
                    l[i] = Elem(v)
                    setc(o, tuple(l))
                    return
                L = V.seq_len(s)
                if not E.decide(And(num(i) >= 0, num(i) < num(L))):
                    raise Unsupported("assignment to a list element from the end or out of range")
                k = E.const("k", I)
                old = get_noforks(s, k)
                setc(o, (For(k, L, (Elem(merge(k == num(i), v, old)),)),))
                return
            if o.kind == "dict":
                self.dict_set(o, i, v)
                return
            if o.kind == "arr":
                from . import arrays
                arrays.setitem(o, i, v)
                return
            if o.kind == "ext":
                o.tag.setitem(o, i, v)
                return
        if isinstance(o, (tuple, NTV, str)):
            throw(TypeError, "item assignment")
        raise Unsupported("item assignment")

    def delitem(self, o, i):
        if isinstance(o, Ref) and o.kind == "dict" and o.c.concrete:
            i = self.key(i)
            items = [(k, v) for k, v in o.c.items if k != i]
            if len(items) == len(o.c.items):
                throw(KeyError, i)
            setc(o, DictC(items=tuple(items)))
            return
        if isinstance(o, Ref) and o.kind == "list":
            self.list_pop(o, i)
            return
        raise Unsupported("del of an item")

    def list_pop(self, o, i=-1):
        s = o.c
        i = self.idx(i)
        if all(isinstance(g, Elem) for g in s) and isinstance(i, int):
            if not -len(s) <= i < len(s):
                throw(IndexError, "pop")
            l = list(s)
            x = l.pop(i)
            setc(o, tuple(l))
            return x.v
        x = V.seq_get(s, i)
        L = V.seq_len(s)
        if isinstance(i, int) and i < 0:
            i = V.add(L, i)
        k = E.const("k", I)
        kk = simp(z3.If(k >= num(i), k + 1, k))
        setc(o, (For(k, simp(num(L) - 1), (Elem(get_noforks(s, kk)),)),))
        return x

    # ------------------------------------------------------------ attributes
    def getattr(self, o, n):
        if isinstance(o, Opt):
            o = self.force(o)
        if isinstance(o, ModV):
            v = o.env.c.get(n, UNDEF)
            if v is UNDEF:
                throw(AttributeError, n)
            return v
        if isinstance(o, LibMod):
            if n in o.d:
                return o.d[n]
            full = o.name + "." + n
            if full in self.lib:
                return self.lib[full]
            raise Unsupported(f"{o.name}.{n}")
        if isinstance(o, Ref):
            if o.kind == "obj":
                if n in o.c:
                    if type(o.c[n]).__name__ == "Poison":
                        raise NeedsInvariant(f"attribute {n} carries a value from one iteration to the next")
                    return o.c[n]
                if n == "__class__":
                    return o.tag
                r = o.tag.lookup(n)
                if r is not None:
                    return self.bind(r[0], o, o.tag, r[1])
                throw(AttributeError, n)
            if o.kind == "ext":
                return o.tag.getattr(o, n)
            from . import lib
            return lib.method(self, o, n)
        if isinstance(o, Cls):
            if n == "__name__":
                return o.name
            r = o.lookup(n)
            if r is None:
                if o.fields is not None and n in ("_fields",):
                    return tuple(o.fields)
                throw(AttributeError, n)
            return self.bind(r[0], None, o, r[1])
        if isinstance(o, NTV):
            if n in o.cls.fields:
                return o.get(n)
            if n == "_replace":
                def rep(**kw):
                    for k in kw:
                        if k not in o.cls.fields:
                            throw(ValueError, k)
                    return NTV(o.cls, [kw.get(f, x) for f, x in zip(o.cls.fields, o.vals)])
                return Native("_replace", rep)
            if n == "_asdict":
                return Native("_asdict", lambda: alloc("dict", DictC(items=tuple(zip(o.cls.fields, o.vals)))))
            if n == "_fields":
                return tuple(o.cls.fields)
            r = o.cls.lookup(n)
            if r is not None:
                return self.bind(r[0], o, o.cls, r[1])
            throw(AttributeError, n)
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                if isinstance(b, Cls):
                    r = b.lookup(n)
                    if r is not None:
                        return self.bind(r[0], o.self_, o.self_.tag if isinstance(o.self_, Ref) else o.self_, r[1])
            if n == "__init__":
                return Native("object.__init__", lambda *a, **k: None)
            throw(AttributeError, n)
        if isinstance(o, Fn) and n == "__name__":
            return o.name
        if isinstance(o, (Fn, BoundM)) and n == "__qualname__":
            return (o.fn if isinstance(o, BoundM) else o).qual
        if isinstance(o, ExcV) and n == "args":
            return o.args
        if o is None:
            throw(AttributeError, f"NoneType has no attribute {n}")
        from . import lib
        return lib.method(self, o, n)

    def bind(self, v, self_, cls, owner):
        if isinstance(v, Wrapped):
            if v.how == "static":
                return v.f
            if v.how == "class":
                return BoundM(OwnedFn(v.f, owner), cls)
            if v.how == "property":
                if self_ is None:
                    return v
                return self.call(BoundM(OwnedFn(v.f, owner), self_), [], {})
        if isinstance(v, Fn) and self_ is not None:
            return BoundM(OwnedFn(v, owner), self_)
        if isinstance(v, Fn):
            return OwnedFn(v, owner)
        return v

    def setattr(self, o, n, v):
        if isinstance(o, Opt):
            o = self.force(o)
        if isinstance(o, Ref) and o.kind == "obj":
            setc(o, {**o.c, n: v})
        elif isinstance(o, Cls):
            setc(o.d, {**o.d.c, n: v})
        elif isinstance(o, Ref) and o.kind == "ext":
            o.tag.setattr(o, n, v)
        elif isinstance(o, NTV):
            throw(AttributeError, "can't set attribute")
        elif isinstance(o, ModV):
            setc(o.env, {**o.env.c, n: v})
        elif o is None:
            throw(AttributeError, n)
        else:
            raise Unsupported(f"assignment to attribute {n}")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Native):
            return f.f(*args, **kw)
        if isinstance(f, BoundM):
            if isinstance(f.fn, (OwnedFn, Fn)):
                return self.call(f.fn, [f.self_] + list(args), kw)
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, OwnedFn):
            return self.call_fn(f.f, args, kw, f.owner)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, None)
        if isinstance(f, Wrapped) and f.how == "static":
            return self.call(f.f, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcCls):
            return ExcV(f.py, args)
        if isinstance(f, TypeV):
            from . import lib
            return lib.construct(self, f, args, kw)
        if isinstance(f, Ref) and f.kind == "ext":
            return f.tag.call(f, *args, **kw)
        if f is None:
            throw(TypeError, "'NoneType' object is not callable")
        raise Unsupported(f"call of {type(f).__name__}")

    def bind_args(self, fn, args, kw):
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        for n, v in zip(pos, args):
            out[n] = v
        rest = list(args[len(pos):])
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(rest)
        elif rest:
            throw(TypeError, f"{fn.name}() takes {len(pos)} positional arguments")
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for n, v in kw.items():
            if n in pos or n in kwonly:
                if n in out:
                    throw(TypeError, f"multiple values for {n}")
                out[n] = v
            elif a.kwarg is not None:
                extra[n] = v
            else:
                throw(TypeError, f"{fn.name}() got an unexpected keyword argument {n}")
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    throw(TypeError, f"{fn.name}() missing argument {n}")
                out[n] = fn.defaults[j]
        for n in kwonly:
            if n not in out:
                if n not in fn.kwdefaults:
                    throw(TypeError, f"{fn.name}() missing keyword argument {n}")
                out[n] = fn.kwdefaults[n]
        if a.kwarg is not None:
            out[a.kwarg.arg] = alloc("dict", DictC(items=tuple(extra.items())))
        return out

    def call_fn(self, fn, args, kw, owner, nocontract=False):
        b = self.bind_args(fn, args, kw)
        c = self.contracts.get(fn.qual)
        if c is not None and not nocontract:
            r = c(self, b)
            if r is not INLINE:
                return r
        E.covered.add(fn.qual)
        if self.depth > 60:
            raise Unsupported("recursion")
        loc = dict(b)
        if owner is not None:
            loc["%cls"] = owner
            first = fn.node.args.args[0].arg if fn.node.args.args else None
            if first:
                loc["%self"] = b[first]
        fr = alloc("frame", loc, fn.qual)
        env = fn.env + [fr]
        self.depth += 1
        self.stack.append((fn.qual, fr))
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, env, fn.mod)
            if is_generator(fn.node):
                raise Unsupported("generator function")
            self.exec_block(fn.node.body, env, fn.mod, fn.qual)
        except ReturnExc as r:
            return r.v
        finally:
            self.depth -= 1
            self.stack.pop()
        return None

    def verify_call(self, fn, args, kw):
        """call of the function under verification: its own contract is not used"""
        if isinstance(fn, BoundM):
            args = [fn.self_] + list(args)
            fn = fn.fn
        owner = None
        if isinstance(fn, OwnedFn):
            fn, owner = fn.f, fn.owner
        if isinstance(fn, Wrapped):
            fn = fn.f
        return self.call_fn(fn, args, kw, owner, nocontract=True)

    def instantiate(self, c, args, kw):
        if c.fields is not None:
            vals = {}
            if len(args) > len(c.fields):
                throw(TypeError, "too many arguments")
            for n, v in zip(c.fields, args):
                vals[n] = v
            for n, v in kw.items():
                if n not in c.fields or n in vals:
                    throw(TypeError, f"{c.name}: {n}")
                vals[n] = v
            for n in c.fields:
                if n not in vals:
                    r = c.lookup(n)
                    if r is None:
                        throw(TypeError, f"{c.name}: missing {n}")
                    vals[n] = r[0]
            return NTV(c, [vals[n] for n in c.fields])
        o = alloc("obj", {}, c)
        r = c.lookup("__init__")
        if r is not None:
            self.call(BoundM(OwnedFn(r[0], r[1]), o), args, kw)
        elif args and not any(isinstance(b, ExcCls) for k in c.mro() for b in k.bases):
            throw(TypeError, "takes no arguments")
        return o


class OwnedFn:
    def __init__(self, f, owner):
        self.f, self.owner = f, owner


class SuperV:
    def __init__(self, s, c):
        self.self_, self.cls = s, c


class Wrapped:
    def __init__(self, how, f):
        self.how, self.f = how, f


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def subst(self, pairs):
        return RangeV(V._subst(self.lo, pairs), V._subst(self.hi, pairs), V._subst(self.step, pairs))

    def seq(self):
        lo, hi, st = self.lo, self.hi, self.step
        if all(isinstance(x, int) for x in (lo, hi, st)):
            if len(range(lo, hi, st)) <= 64:
                return tuple(Elem(i) for i in range(lo, hi, st))
        if not isinstance(st, int) or st not in (1, -1):
            raise Unsupported("range step")
        k = E.const("k", I)
        n = simp(num(hi) - num(lo)) if st == 1 else simp(num(lo) - num(hi))
        return (For(k, n, (Elem(simp(num(lo) + k) if st == 1 else simp(num(lo) - k)),)),)


class DictView:
    def __init__(self, d, what):
        self.d, self.what = d, what

    def seq(self, ip):
        d = self.d
        if d.concrete:
            if self.what == "keys":
                return tuple(Elem(k) for k, v in d.items)
            if self.what == "values":
                return tuple(Elem(v) for k, v in d.items)
            return tuple(Elem((k, v)) for k, v in d.items)
        if d.keys is None:
            raise Unsupported("iteration over a symbolic dictionary")
        if self.what == "keys":
            return d.keys
        g = (lambda k: d.get(kterm(k))) if self.what == "values" else (lambda k: (k, d.get(kterm(k))))
        return map_seq(d.keys, g)


def map_seq(s, g):
    out = []
    for x in s:
        if isinstance(x, Elem):
            out.append(Elem(g(x.v)))
        elif isinstance(x, IfS):
            out.append(IfS(x.c, map_seq(x.a, g), map_seq(x.b, g)))
        elif isinstance(x, For):
            out.append(For(x.k, x.n, map_seq(x.body, g)))
        else:
            raise Unsupported("map over a set or unfinished list")
    return tuple(out)


def is_generator(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def same_sort(x, k):
    return is_z3(x) and is_z3(k) and x.sort() == k.sort()


def kterm(k):
    if isinstance(k, (str, StrV)):
        return strt(k)
    if isinstance(k, (int, Fraction)):
        return num(k)
    if is_z3(k):
        return k
    raise Unsupported("dictionary key term")


def kind_of(v):
    if is_bool(v) or is_num(v):
        return "num"
    if is_str(v) or isinstance(v, StrV):
        return "str"
    if isinstance(v, (tuple, NTV)):
        return "tuple"
    if isinstance(v, Ref) and v.kind in ("list", "dict", "set"):
        return v.kind
    return None


def merge_lazy(c, a, bf):
    c = boolt(c)
    c = simp(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return bf()
    return merge(c, a, bf())


def merge(c, a, b):
    """if c then a else b, on any values"""
    c = simp(boolt(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if a is None and b is None:
        return None
    if a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt):
        def parts(x):
            if x is None:
                return z3.BoolVal(False), None
            if isinstance(x, Opt):
                return x.cond, x.v
            return z3.BoolVal(True), x
        ca, va = parts(a)
        cb, vb = parts(b)
        v = va if vb is None else vb if va is None else merge(c, va, vb)
        return Opt(simp(z3.If(c, ca, cb)), v)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not hasattr(a, "_fields"):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, NTV) and isinstance(b, NTV) and a.cls is b.cls:
        return NTV(a.cls, [merge(c, x, y) for x, y in zip(a.vals, b.vals)])
    if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)) and not (isinstance(a, str) and isinstance(b, str)):
        return StrV(V.mk_if(c, str_parts(a), str_parts(b)))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind:
        if a.kind == "list":
            return alloc("list", V.mk_if(c, a.c, b.c))
        if a.kind == "arr":
            from . import arrays
            return arrays.where_content(c, a, b)
        if a.kind == "dict" and not a.c.concrete and not b.c.concrete:
            x, y = a.c, b.c
            keys = V.mk_if(c, x.keys, y.keys) if x.keys is not None and y.keys is not None else None
            return alloc("dict", DictC(has=lambda t: ite(c, boolt(x.has(t)), boolt(y.has(t))), get=lambda t: merge(c, x.get(t), y.get(t)), keys=keys))
        if a.kind == "ext" and a.tag is b.tag and set(a.c) == set(b.c):
            n = {k: merge(c, a.c[k], b.c[k]) for k in a.c}
            return alloc("ext", n, a.tag)
    try:
        return simp(ite(c, a, b)) if is_z3(r := ite(c, a, b)) else r
    except Unsupported:
        raise


def get_noforks(s, k):
    """element k of sequence s as a merged value, without forking the path"""
    def go(s, rest):
        if not s:
            return None
        g = s[0]
        if isinstance(g, IfS):
            return merge(g.c, go(g.a + s[1:], rest), go(g.b + s[1:], rest))
        if isinstance(g, Elem):
            if len(s) == 1:
                return g.v
            c = simp(num(rest) == 0)
            return pick(c, g.v, lambda: go(s[1:], simp(num(rest) - 1)))
        if isinstance(g, For) and V.simple_for(g):
            if len(s) == 1:
                return V.inst(g, rest)[0].v
            L = num(V.for_len(g))
            c = simp(num(rest) < L)
            return pick(c, V.inst(g, rest)[0].v, lambda: go(s[1:], simp(num(rest) - L)))
        if isinstance(g, For) and V.block_of(g) is not None:
            b = V.block_of(g)
            if len(s) == 1:
                return go(V.inst(g, simp(num(rest) / b)), simp(num(rest) % b))
            L = num(V.for_len(g))
            c = simp(num(rest) < L)
            return pick(c, go(V.inst(g, simp(num(rest) / b)), simp(num(rest) % b)), lambda: go(s[1:], simp(num(rest) - L)))
        if isinstance(g, For) and len(s) == 1:
            save = E.decide
            try:
                E.decide = lambda c: True
                return V.filtered_get(g, rest)
            finally:
                E.decide = save
        raise Unsupported("element of a nested sequence")

    def pick(c, a, bf):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return bf()
        return merge(c, a, bf())
    return go(tuple(s), num(k))


def set_len(ip, c):
    if c.items is not None:
        if all(isinstance(x, str) for x in c.items):
            return len(set(c.items))
    if getattr(c, "size", None) is not None:
        return c.size
    # cardinality of the set of strings characterised by its predicate
    return CARD_of(c)


def CARD_of(c):
    x = z3.Const("!s", Str)
    return CARD(core.lam([x], simp(boolt(c.pred(x)))))


CARD = z3.Function("CARD", z3.ArraySort(Str, B), I)
POW = z3.Function("POW", R, R, R)
DIV0 = z3.Function("DIV0", R, R)
SUBSTR = z3.Function("SUBSTR", Str, Str, B)


def div(x, y):
    """quotient of reals; the prover treats x/0 as an arbitrary value, like the
    IEEE result it stands for"""
    return simp(x / y)
