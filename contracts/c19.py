"""C19: sampled states are points of the profile at equal fractions of the rise.

FIRST(i): the first point of the profile at which the temperature has risen by at
least (i+1)/20 of the total rise; it exists, as the last point has risen by all of it
(or, if the temperature falls, the first point by nothing)."""
from .common import *
from pyvc import loops
from .c06 import sk

FIRST = z3.Function("first", I, I)
T, P, Y = z3.Function("profile.T", I, R), z3.Function("profile.P", I, R), z3.Function("profile.Y", I, I, R)


class Profile:
    def __init__(self, ip, points=20):
        e = core.E
        self.ip, self.points = ip, points
        n, m = self.n, self.m = e.const("n_points", I), e.const("n_species", I)
        e.assume(And(n >= 1, m >= 1))
        self.rise = T(n - 1) - T(0)
        k = e.const("i", I)
        e.prove("some point has its share of the rise", Implies(in_range(k, z3.IntVal(points)), Or(T(n - 1) >= self.level(k), T(0) >= self.level(k))))
        i, q = z3.Ints("i! q!")
        e.assume(z3.ForAll([i], Implies(in_range(i, z3.IntVal(points)), And(in_range(FIRST(i), n), T(FIRST(i)) >= self.level(i))), patterns=[FIRST(i)]))
        e.assume(z3.ForAll([i, q], Implies(And(in_range(i, z3.IntVal(points)), q >= 0, q < FIRST(i)), T(q) < self.level(i)), patterns=[z3.MultiPattern(FIRST(i), T(q))]))
        self.temperatures = alloc("arr", ArrC([Axis(n)], lambda i: T(i)))
        self.pressures = alloc("arr", ArrC([Axis(n)], lambda i: P(i)))
        self.fractions = alloc("arr", ArrC([Axis(n), Axis(m)], lambda i, j: Y(i, j)))

    def level(self, i):
        return T(0) + z3.ToReal(i + 1) / self.points * self.rise

    def row(self, p, c):
        return z3.If(c == 0, T(p), z3.If(c == 1, P(p), Y(p, c - 2)))


class Filling:
    """the loop over points and the loop over levels reached at a point"""

    def __init__(self, sc, fn):
        self.sc, self.ip = sc, sc.ip
        self.point = None
        self.ip.loop_contracts[(fn, ("For", 0))] = self.over_points
        self.ip.loop_contracts[(fn, ("While", 0))] = self.over_levels

    def locate(self, loop):
        """the counter of levels and the table that is filled, by what they hold"""
        env = loop.ctx.env[-1].c
        N = self.sc.points
        cnt = [nm for nm in loops.assigned_names(loop.ctx.st) if is_z3(env.get(nm)) and env[nm].is_int() or isinstance(env.get(nm), int) and not isinstance(env.get(nm), bool)]
        tab = [v for v in env.values() if isinstance(v, Ref) and v.kind == "arr" and len(A.arrc(v).axes) == 2 and v is not self.sc.fractions]
        if len(cnt) != 1 or len(tab) != 1:
            raise Unsupported("the levels are not counted by one variable and filled into one table")
        self.name, self.table = cnt[0], tab[0]
        a = A.arrc(tab[0]).axes
        core.E.prove("one row per level, one column for temperature, pressure and each species", And(num(A.count(a[0])) == N, num(A.count(a[1])) == self.sc.m + 2))

    def count(self, loop):
        return num(loop.ctx.env[-1].c[self.name])

    def havoc(self, loop):
        e = core.E
        env = loop.ctx.env[-1]
        V.setc(env, {**env.c, self.name: e.const("level", I)})
        f = e.func("filled", I, I, R)
        V.setc(self.table, ArrC([Axis(self.sc.points), Axis(simp(self.sc.m + 2))], lambda i, j: f(num(i), num(j))))

    def facts(self, loop, goal, p, inside):
        """before point p is treated (inside: while it is)"""
        sc, at = self.sc, A.arrc(self.table).at
        N, idx = z3.IntVal(sc.points), self.count(loop)
        upto = (lambda x: x <= p) if inside else (lambda x: x < p)
        return [
            ("the number of levels", And(idx >= 0, idx <= N)),
            ("levels reached", sk([("i", I), ("c", I)], lambda i, c: Implies(And(i >= 0, i < idx, c >= 0, c < sc.m + 2), real(at(i, c)) == sc.row(FIRST(i), c)), goal)),
            ("reached before", sk([("i", I)], lambda i: Implies(And(i >= 0, i < idx), upto(FIRST(i))), goal)),
            ("levels not reached", sk([("i", I)], lambda i: Implies(And(i >= idx, i < N), FIRST(i) >= p), goal)),
        ]

    def over_points(self, ip, loop):
        try:
            self.locate(loop)
        except Unsupported:
            # another way to fill the table
            return loops.run_seq(loop.seq, loop.body, loop.ctx)

        def inv(k, goal):
            self.point = k
            return self.facts(loop, goal, k, False)
        loops.inductive_for(ip, loop, "loop over points", lambda k: self.havoc(loop), inv)

    def over_levels(self, ip, loop):
        if self.point is None:
            self.locate(loop)
        # on entry a goal, then an assumption, then a goal again
        seq = [True, False, True]

        def inv():
            return self.facts(loop, seq.pop(0), self.point, True)
        loops.inductive_while(ip, loop, "loop over levels", lambda: self.havoc(loop), inv)


@vc("C19", "BaseSimulation._sample_profile: state i is that of the first point with (i+1)/20 of the rise", functions=["simulation.BaseSimulation._sample_profile"])
def sample_profile(ip):
    e = core.E
    sc = Profile(ip)
    Filling(sc, "simulation.BaseSimulation._sample_profile")
    cls = ip.fn("simulation", "IgnitionSimulation")
    cover(ip)
    before = [(x, x.c) for x in (sc.temperatures, sc.pressures, sc.fractions)]
    res = ip.call(ip.getattr(cls, "_sample_profile"), [sc.temperatures, sc.pressures, sc.fractions], {})
    cover_end(ip, "a result")
    a = A.arrc(res)
    if len(a.axes) != 2:
        e.fail("a table is returned", repr(res))
        return
    e.prove("twenty states of temperature, pressure and mass fractions", And(num(A.count(a.axes[0])) == 20, num(A.count(a.axes[1])) == sc.m + 2))
    i, c = e.const("i", I), e.const("c", I)
    e.assume(And(in_range(i, z3.IntVal(20)), in_range(c, sc.m + 2)))
    e.prove("each state is that of one point, the first with its share of the rise", real(a.at(i, c)) == sc.row(FIRST(i), c))
    for x, c0 in before:
        if x.c is not c0:
            e.fail("the profile is unchanged", repr(x))
