"""Cantera (assumed contracts).  A model is an element of the uninterpreted sort Mod;
its species, reactions and data are uninterpreted functions of it; a thermochemical
state is an element of the sort St."""
import z3
import builtins as _b
from fractions import Fraction
from . import core, values as V, arrays as A
from .core import (E, Ref, Unsupported, NeedsInvariant, ExcV, throw, I, R, B, Str, And, Or, Not, Implies, ite, boolt, num, real, strt,
                   is_z3, is_num, is_bool, is_str, in_range, forall, exists, simp, lit)
from .values import Elem, IfS, For, SetSeg, StrV, Fmt, DictC, SetC, ArrC, SeqArr, Axis, Opt, alloc, setc, mk_str
from .interp import Native, LibMod, TypeV, ExcCls, Ext, ext, upd, CanteraError, merge, kterm
from .lib import native
from .lib_misc import Mod
from .loops import DISTINCT

St = z3.DeclareSort("St")
Ob = z3.DeclareSort("Ob")          # opaque data (thermo polynomials, transport data, rates)
AI = z3.ArraySort(I, R)
SB = z3.ArraySort(Str, B)


def F(name, *s):
    return z3.Function(name, *s)


PHASE = F("PHASE", Mod, Str, Mod)            # phase of the given name in a file's content
NSP, NRX = F("NSP", Mod, I), F("NRX", Mod, I)
SPN, SPI = F("SPN", Mod, I, Str), F("SPI", Mod, Str, I)
PS, RS = F("PSTOICH", Mod, I, I, R), F("RSTOICH", Mod, I, I, R)
NROP = F("NROP", Mod, St, I, R)
MKY, MKX = F("MKSTY", Mod, R, R, AI, St), F("MKSTX", Mod, R, R, Ob, St)
MKYC = F("MKSTYC", Mod, R, R, Ob, St)
MKEQ = F("MKSTEQ", Mod, R, R, R, Ob, Ob, St)
YOF = F("YOF", St, I, R)
ST0 = F("ST0", Mod, St)
T0, P0 = F("T0", Mod, R), F("P0", Mod, R)
TRANSP = F("TRANSP", Mod, Str)
THERMO, TRDATA = F("SPTHERMO", Mod, I, Ob), F("SPTRANS", Mod, I, Ob)
RATE, RTYPE, EQN = F("RATE", Mod, I, Ob), F("RTYPE", Mod, I, Str), F("EQN", Mod, I, Str)
HASTB, DEFEFF, DUP = F("HASTB", Mod, I, B), F("DEFEFF", Mod, I, R), F("DUP", Mod, I, B)
LOADS = F("LOADS", Mod, Str, B)              # the content has the phase and is a valid model
ONE_ATM = Fraction(101325)


def declare_index(name, keyf, posf, presorts, nf):
    """keyf(*pre, i), i < nf(*pre), enumerates different strings; posf is its inverse"""
    V.INVERSE[name] = lambda *a: posf(*a)
    DISTINCT.add(name)
    pre = [z3.Const(f"a{i}", s) for i, s in _b.enumerate(presorts)]
    i = z3.Int("i!")
    k = keyf(*pre, i)
    ax = z3.ForAll(pre + [i], Implies(And(i >= 0, i < nf(*pre)), posf(*pre, k) == i), patterns=[k])
    E.prover.axiom(name, ax)
    if pre:
        E.prover.axiom(nf.name() if hasattr(nf, "name") else name, z3.ForAll(pre, nf(*pre) >= 0))


def symdict(base, pre, valsort=R, nonneg=False):
    """symbolic dictionary with different string keys in some order"""
    sorts = [p.sort() for p in pre]
    key, pos = F(base + ".key", *sorts, I, Str), F(base + ".pos", *sorts, Str, I)
    n = F(base + ".n", *sorts, I)
    val = F(base + ".val", *sorts, Str, valsort)
    declare_index(base + ".key", key, pos, sorts, n)

    def has(x):
        p = pos(*pre, x)
        return And(p >= 0, p < n(*pre), key(*pre, p) == x)
    k = z3.FreshConst(I, "k")
    return DictC(has=has, get=lambda x: val(*pre, x), keys=(For(k, n(*pre), (Elem(key(*pre, k)),)),))


def gen_objs(n, mk):
    """sequence of objects mk(k), 0 <= k < n"""
    k = z3.FreshConst(I, "k")
    oid0 = _b.len(E.heap)
    o = mk(k)
    for r in E.heap[oid0:]:
        r.born = tuple(r.born or ()) + (k,)
    return (For(k, n, (Elem(o),)),)


DEF_NONE = z3.RealVal(1)        # default efficiency of a reaction without the entry


class OpaqueAttr(Ext):
    """object whose attributes are uninterpreted functions of its key"""
    name = "data"
    sorts = {}

    def missing(self, r, n):
        s = self.sorts.get(n)
        key = r.c["key"]
        if s is None:
            raise Unsupported(f"attribute {n} of {self.name}")
        return F(f"{self.name}.{n}", *[k.sort() for k in key], s)(*key)

    def hasattr(self, r, n):
        return n in self.sorts or super().hasattr(r, n)


class Species(OpaqueAttr):
    name = "Species"
    sorts = {"charge": R, "size": R, "molecular_weight": R}

    def g_name(self, r):
        return SPN(*r.c["key"])

    def g_composition(self, r):
        return alloc("dict", symdict("COMP", r.c["key"]))

    def g_thermo(self, r):
        return ext(SPTHERMO, key=r.c["key"], ob=THERMO(*r.c["key"]))

    def g_transport(self, r):
        return ext(SPTRANS, key=r.c["key"], ob=TRDATA(*r.c["key"]))


class SpThermo(OpaqueAttr):
    name = "SpeciesThermo"
    sorts = {"min_temp": R, "max_temp": R}

    def g_coeffs(self, r):
        f = F("SPCOEFF", *[k.sort() for k in r.c["key"]], I, R)
        return alloc("arr", ArrC([Axis(15)], lambda i: f(*r.c["key"], i)))

    def fn(self, n, r, T):
        f = F("SP" + n, *[k.sort() for k in r.c["key"]], R, R)
        return f(*r.c["key"], real(T))

    def m_cp(self, r, T):
        return self.fn("cp", r, T)

    def m_h(self, r, T):
        return self.fn("h", r, T)

    def m_s(self, r, T):
        return self.fn("s", r, T)


class SpTrans(OpaqueAttr):
    name = "SpeciesTransport"
    sorts = {"geometry": Str, "diameter": R, "well_depth": R, "dipole": R, "polarizability": R, "rotational_relaxation": R,
             "acentric_factor": R, "dispersion_coefficient": R, "quadrupole_polarizability": R}


class ThirdBody(OpaqueAttr):
    name = "ThirdBody"
    sorts = {"mass_action": B, "name": Str}

    def g_efficiencies(self, r):
        return r.c["eff"]

    def s_efficiencies(self, r, v):
        # Cantera copies the given dictionary
        upd(r, eff=alloc("dict", v.c))

    def g_default_efficiency(self, r):
        return DEFEFF(*r.c["key"])


class Reaction(OpaqueAttr):
    name = "Reaction"
    sorts = {"equation": Str, "reaction_type": Str, "duplicate": B, "reversible": B, "allow_negative_orders": B, "ID": Str}

    def g_equation(self, r):
        return EQN(*r.c["key"])

    def g_duplicate(self, r):
        return DUP(*r.c["key"])

    def g_reaction_type(self, r):
        return RTYPE(*r.c["key"])

    def g_reactants(self, r):
        return alloc("dict", symdict("REAC", r.c["key"]))

    def g_products(self, r):
        return alloc("dict", symdict("PROD", r.c["key"]))

    def g_orders(self, r):
        return alloc("dict", symdict("ORD", r.c["key"]))

    def g_third_body(self, r):
        return Opt(HASTB(*r.c["key"]), r.c["tb"])

    def g_rate(self, r):
        return ext(RATEX, key=r.c["key"])

    def s_rate(self, r, v):
        upd(r, rate=v)

    # data of the input file, written in place of what the object does not have
    def m_clear_user_data(self, r):
        upd(r, user=z3.BoolVal(False), userdef=DEF_NONE)

    def m_update_user_data(self, r, d):
        if not (isinstance(d, Ref) and d.kind == "dict" and d.c.concrete) or [k for k, _ in d.c.items] != ["default-efficiency"]:
            raise Unsupported("update_user_data with other keys than default-efficiency")
        upd(r, userdef=real(d.c.items[0][1]))

    def s_duplicate(self, r, v):
        upd(r, dup=v)


class Rate(OpaqueAttr):
    name = "Rate"
    sorts = {"pre_exponential_factor": R, "temperature_exponent": R, "activation_energy": R, "type": Str}


SPECIES, REACTION, TBODY, SPTHERMO, SPTRANS, RATEX = Species(), Reaction(), ThirdBody(), SpThermo(), SpTrans(), Rate()


def mk_species(m, k):
    return ext(SPECIES, key=(m, k))


def mk_reaction(m, k):
    tb = ext(TBODY, key=(m, k), eff=alloc("dict", symdict("EFF", (m, k))))
    return ext(REACTION, key=(m, k), tb=tb, user=z3.BoolVal(True), userdef=DEFEFF(m, k))


def yterm(y):
    """mass fraction vector as an array term"""
    c = A.content(y)
    if isinstance(c, SeqArr) or _b.len(c.axes) != 1:
        raise Unsupported("mass fractions of variable shape")
    k = z3.FreshConst(I, "!y")
    return core.lam([k], simp(real(c.at(k))))


def compterm(d):
    """composition argument as an opaque term"""
    if isinstance(d, Ref) and is_z3(d.tag):
        return d.tag
    if isinstance(d, Ref) and d.kind == "dict" and d.c.concrete:
        f = z3.Const("comp:{}", Ob)
        for k, v in d.c.items:
            f = z3.Function("comp:+", Ob, Str, R, Ob)(f, strt(k), real(v))
        return f
    if is_z3(d) and d.sort() == Ob:
        return d
    if isinstance(d, Opt):
        raise Unsupported("optional composition")
    raise Unsupported("composition argument")


class Solution(Ext):
    name = "Solution"

    def m(self, r):
        if r.c["mod"] is None:
            raise Unsupported("data of a newly built model")
        return r.c["mod"]

    def g_n_species(self, r):
        if r.c.get("sp") is not None:
            return V.seq_len(r.c["sp"])
        return NSP(self.m(r))

    def g_n_total_species(self, r):
        return self.g_n_species(r)

    def g_n_reactions(self, r):
        if r.c.get("rx") is not None:
            return V.seq_len(r.c["rx"])
        return NRX(self.m(r))

    def g_species_names(self, r):
        m = self.m(r)
        k = z3.FreshConst(I, "k")
        return alloc("list", (For(k, NSP(m), (Elem(SPN(m, k)),)),))

    def m_species(self, r, i=None):
        m = self.m(r)
        if i is None:
            return alloc("list", gen_objs(NSP(m), lambda k: mk_species(m, k)))
        if is_str(i) or isinstance(i, StrV):
            i = SPI(m, strt(i))
        return mk_species(m, num(i))

    def m_species_index(self, r, s):
        m = self.m(r)
        t = strt(s)
        p = SPI(m, t)
        if not E.decide(And(in_range(p, NSP(m)), SPN(m, p) == t)):
            throw(CanteraError, "species")
        return p

    def m_species_name(self, r, i):
        return SPN(self.m(r), num(i))

    def m_reactions(self, r):
        m = self.m(r)
        return alloc("list", gen_objs(NRX(m), lambda k: mk_reaction(m, k)))

    def m_reaction(self, r, i):
        return mk_reaction(self.m(r), num(i))

    def mat(self, r, f):
        m = self.m(r)
        return alloc("arr", ArrC([Axis(NSP(m)), Axis(NRX(m))], lambda i, j: f(m, i, j)))

    def g_product_stoich_coeffs(self, r):
        return self.mat(r, PS)

    def g_reactant_stoich_coeffs(self, r):
        return self.mat(r, RS)

    def g_net_rates_of_progress(self, r):
        m, s = self.m(r), r.c["st"]
        return alloc("arr", ArrC([Axis(NRX(m))], lambda j: NROP(m, s, j)))

    # --- state
    def s_TPY(self, r, v):
        T, P, Y = v if isinstance(v, tuple) else [g.v for g in v.c]
        m = self.m(r)
        T = r.c["T"] if T is None else real(T)
        P = r.c["P"] if P is None else real(P)
        if A.isarr(Y):
            st = MKY(m, T, P, yterm(Y))
        else:
            st = MKYC(m, T, P, compterm(Y))
        upd(r, T=T, P=P, st=st)

    def s_TPX(self, r, v):
        T, P, X = v
        T = r.c["T"] if T is None else real(T)
        P = r.c["P"] if P is None else real(P)
        upd(r, T=T, P=P, st=MKX(self.m(r), T, P, compterm(X)))

    def s_TP(self, r, v):
        T, P = v
        T = r.c["T"] if T is None else real(T)
        P = r.c["P"] if P is None else real(P)
        st = None if r.c["mod"] is None else F("SETTP", St, R, R, St)(r.c["st"], T, P)
        upd(r, T=T, P=P, st=st)

    def g_TP(self, r):
        return (r.c["T"], r.c["P"])

    def g_T(self, r):
        return r.c["T"]

    def g_P(self, r):
        return r.c["P"]

    def g_Y(self, r):
        s = r.c["st"]
        return alloc("arr", ArrC([Axis(NSP(self.m(r)))], lambda i: YOF(s, i)))

    def g_TPY(self, r):
        return (r.c["T"], r.c["P"], self.g_Y(r))

    def m_set_equivalence_ratio(self, r, phi, fuel, oxidizer, basis="mole", **k):
        if basis != "mole" or k:
            raise Unsupported("equivalence ratio on another basis")
        st = MKEQ(self.m(r), r.c["T"], r.c["P"], real(phi), compterm(fuel), compterm(oxidizer))
        upd(r, st=st)

    # --- metadata
    def g_transport_model(self, r):
        return r.c["transport"]

    def s_transport_model(self, r, v):
        upd(r, transport=v)

    def g_name(self, r):
        return r.c["name"]

    def s_name(self, r, v):
        upd(r, name=v)

    def g_thermo_model(self, r):
        return r.c.get("thermo", F("THERMOMODEL", Mod, Str)(self.m(r)))

    def m_write_yaml(self, r, path, **k):
        from .lib_misc import fs_write
        ip = r.c["ip"]
        fs_write(ip.fs, strt(path), mod=content_of(r), other=r)


def content_of(r):
    """file content that write_yaml produces for a model"""
    if r.c["mod"] is not None and r.c.get("sp") is None:
        return F("YAML", Mod, Mod)(r.c["mod"])
    k = r.c.get("content")
    if k is None:
        raise Unsupported("content of a newly built model")
    return k


SOLUTION = Solution()


def solution(ip, mod, **over):
    c = dict(ip=ip, mod=mod, sp=None, rx=None, T=T0(mod), P=P0(mod), st=ST0(mod), transport=TRANSP(mod), name=F("SNAME", Mod, Str)(mod))
    c.update(over)
    return ext(SOLUTION, **c)


def make(ip, m):
    d = {}
    ct = LibMod("cantera", d)
    m["cantera"] = ct
    declare_index("SPN", SPN, SPI, [Mod], NSP)
    mm = z3.Const("m!", Mod)
    E.prover.axiom("NRX", z3.ForAll([mm], NRX(mm) >= 0))
    d["CanteraError"] = ExcCls(CanteraError)
    d["one_atm"] = ONE_ATM
    d["gas_constant"] = Fraction("8314.46261815324")
    d["boltzmann"] = Fraction("1.380649e-23")
    d["avogadro"] = Fraction("6.02214076e+26")
    d["suppress_thermo_warnings"] = Native("suppress_thermo_warnings", lambda *a: None)
    d["__version__"] = "3.2.0"

    class SolType(TypeV):
        pass

    def make_solution(infile="", name="", **kw):
        if isinstance(infile, str) and infile == "":
            sp, rx = kw.pop("species"), kw.pop("reactions", None)
            if _b.set(kw) - {"thermo", "kinetics", "transport_model", "transport", "name"}:
                raise Unsupported("Solution arguments")
            s = ext(SOLUTION, ip=ip, mod=None, sp=ip.iter_seq(sp), rx=ip.iter_seq(rx) if rx is not None else (),
                    T=z3.RealVal("298.15"), P=real(ONE_ATM), st=None, transport=kw.get("transport_model", kw.get("transport")),
                    name=kw.get("name", "newphase"), thermo=kw.get("thermo"), kinetics=kw.get("kinetics"))
            return s
        if kw and _b.set(kw) != {"transport_model"}:
            raise Unsupported("Solution arguments")
        f = ip.fs.c["mod"](strt(infile))
        hook = ip.lib.get("%load")
        if hook is not None:
            hook(infile, name)
        return solution(ip, PHASE(f, strt(name)))
    d["Solution"] = Native("Solution", make_solution)
    for cls in ("Reaction", "Species", "ReactorNet", "FreeFlame", "AdaptivePreconditioner", "IdealGasConstPressureMoleReactor",
                "IdealGasMoleReactor", "IdealGasConstPressureReactor", "IdealGasReactor"):
        def f(*a, cls=cls, **k):
            h = ip.lib.get("%ct." + cls)
            if h is None:
                raise Unsupported(f"cantera.{cls}")
            return h(*a, **k)
        d[cls] = Native(cls, f)
    for t in ("Arrhenius", "ArrheniusRate", "FalloffRate", "LindemannRate", "TroeRate", "SriRate", "TsangRate", "PlogRate", "ChebyshevRate",
              "NasaPoly2", "SpeciesThermo", "GasTransportData", "BlowersMaselRate", "TwoTempPlasmaRate", "ElectronCollisionPlasmaRate",
              "InterfaceArrheniusRate", "StickingArrheniusRate", "ConstantCp", "ShomatePoly2", "ThirdBody"):
        d[t] = TypeV(t)
    ck = {}
    m["cantera.ck2yaml"] = LibMod("cantera.ck2yaml", ck)
    d["ck2yaml"] = m["cantera.ck2yaml"]
