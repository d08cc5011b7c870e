"""P19: the preliminary fit never returns something worse than its start.

The Nelder-Mead loop is verified with loop invariants for any number of parameters, any number of
iterations and any function: the function is a symbol, whose calls are recorded by ghost variables
(the number of calls, the least value of all of them and the vertex that has it)."""
from pyvc.report import Property
from pyvc import loops
from .P17 import FORMS, _data
from .P18 import _expected, _likelihood

P = Property("P19")


class Simplex(loops.Spec):
    """What the loops over the simplex have in common: a matrix of N + 1 vertices and an array of
    their values, a list with the number of calls; they are recognised by their shapes"""

    def __init__(self, c, f, ghost, n):
        self.c, self.f, self.g, self.nn = c, f, ghost, c.s._t(n)
        self.n1 = c.t.add(self.nn, c.t.ONE)

    def inplace(self, role):
        return True

    def match(self, env, names):
        s = self.c.s
        arrays = {k: v for k, v in env.items() if isinstance(v, s.SArr) and not isinstance(v, s.View)}
        ms = [k for k, v in arrays.items() if v.ndim == 2]
        vs = [k for k, v in arrays.items() if v.ndim == 1 and v.kind == "f" and v.axes[0].length is self.n1]
        cnt = [v for v in env.values() if isinstance(v, list) and len(v) == 1]
        if len(ms) != 1 or len(vs) != 1 or len(cnt) != 1:
            return None
        cells = {"best": (self.g, "best"), "calls": (self.g, "calls"), "arg": (self.g, "arg"), "count": (cnt[0], 0)}
        return self.roles(env, names, {"sim": ms[0], "val": vs[0]}, cells)

    def roles(self, env, names, roles, cells):
        return roles, cells

    def consistent(self, s):
        """Each value is that of its vertex"""
        c = self.c
        f = lambda i: c.t.eq(s.val.at(i), self.f(s.sim[c.s.num(i, "i")]))
        return f


class Start(Simplex):
    """The loop that makes the other vertices of the first simplex"""

    name, kind = "the first simplex", "for"

    def roles(self, env, names, roles, cells):
        return None if "done" in self.g else (roles, cells)

    def inv(self, s):
        t = self.c.t
        up = t.add(s.k, t.ONE)
        count = self.c.s._t(s.count)
        return [
            ("values", up, self.consistent(s)),
            ("least value", up, lambda i: t.le(s.best, s.val.at(i))),
            ("attained", t.eq(s.best, s.val.at(s.arg))),
            ("vertex", t.conj([t.le(t.ZERO, s.arg), t.le(s.arg, s.k)])),
            ("evaluations", t.conj([t.eq(s.calls, up), t.eq(count, up)])),
            ("start", t.le(s.best, self.g["start"])),
        ]

    def step(self, old, new):
        t = self.c.t
        return {"arg": t.ite(t.lt(new.best, old.best), new.k, old.arg)}


class Main(Simplex):
    """The iterations"""

    name = "the iterations"

    def __init__(self, c, f, ghost, n, maxfev, maxiter):
        Simplex.__init__(self, c, f, ghost, n)
        self.maxfev, self.maxiter = maxfev, maxiter

    def roles(self, env, names, roles, cells):
        ints = [k for k in names if k in env and isinstance(env[k], int)]
        if len(ints) != 1:
            return None
        roles["it"] = ints[0]
        self.g["done"] = True
        return roles, cells

    def inv(self, s):
        t, st = self.c.t, self.c.s._t
        count, it = st(s.count), st(s.it)
        return [
            ("values", self.n1, self.consistent(s)),
            ("order", self.n1, lambda i: t.le(s.val.at(t.ZERO), s.val.at(i))),
            ("least value", t.eq(s.best, s.val.at(t.ZERO))),
            ("evaluations", t.eq(s.calls, count)),
            ("first evaluations", t.le(self.n1, count)),
            ("limit of evaluations", t.disj([t.le(count, self.n1), t.le(count, t.add(self.maxfev, self.n1))])),
            ("first iteration", t.le(t.ONE, it)),
            ("limit of iterations", t.disj([t.le(it, t.ONE), t.le(it, self.maxiter)])),
            ("start", t.le(s.best, self.g["start"])),
        ]

    def variant(self, s):
        t = self.c.t
        return t.add(self.maxiter, t.neg(self.c.s._t(s.it)))


class Shrink(Simplex):
    """The loop that moves all vertices towards the best one"""

    name, kind = "the contraction of the simplex", "for"

    def roles(self, env, names, roles, cells):
        return (roles, cells) if "done" in self.g else None

    def begin(self, s):
        self.g["arg"] = self.c.t.ZERO

    def inv(self, s):
        t, st = self.c.t, self.c.s._t
        return [
            ("values", self.n1, self.consistent(s)),
            ("least value", self.n1, lambda i: t.le(s.best, s.val.at(i))),
            ("attained", t.eq(s.best, s.val.at(s.arg))),
            ("vertex", t.conj([t.le(t.ZERO, s.arg), t.le(s.arg, s.k)])),
            ("evaluations", t.conj([t.eq(s.calls, t.add(s.entry.calls, s.k)), t.eq(st(s.count), s.calls)])),
            ("start", t.le(s.best, self.g["start"])),
        ]

    def step(self, old, new):
        t = self.c.t
        return {"arg": t.ite(t.lt(new.best, old.best), new.k, old.arg)}


def objective(c):
    """A function and the record of its calls"""
    g = {"best": None, "calls": 0, "arg": 0}
    if c.concrete:
        import numpy as np

        kind = c.choice("function", ["quadratic", "noise", "absolute", "saddle", "steps", "constant"])
        w = [c.real("w%d" % k, 0.1, 5) for k in range(4)]

        def value(x):
            x = np.asarray(x, dtype=float)
            d = [x[k] - w[k] for k in range(len(x))]
            if kind == "noise":
                return float(np.sum(np.sin(1e4 * w[0] * (np.arange(len(x)) + 1) * x)))
            if kind == "quadratic":
                return sum(w[k] * d[k] ** 2 for k in range(len(x))) + 0.3
            if kind == "absolute":
                return sum(w[k] * abs(d[k]) for k in range(len(x))) + 0.3
            if kind == "saddle":
                return float(np.cos(3 * d[0]) + np.sum(np.asarray(d) ** 2) * 0.1 + np.sin(5 * d[-1]))
            if kind == "steps":
                return float(np.floor(sum(w[k] * abs(d[k]) for k in range(len(x)))))
            return 1.0

        def f(x):
            v = value(x)
            g["best"] = v if g["best"] is None else min(g["best"], v)
            g["calls"] += 1
            return v

        return f, value, g
    t, s = c.t, c.s
    g["calls"], g["arg"] = t.ZERO, t.ZERO

    def value(x):
        return t.app("f", (s._arrterm(s.as_arr(x)),))

    def f(x):
        v = value(x)
        if g["best"] is None:
            g["start"] = v
        g["best"] = v if g["best"] is None else t.ite(t.lt(v, g["best"]), v, g["best"])
        g["calls"] = t.add(g["calls"], t.ONE)
        return s.num(v)

    return f, value, g


def minimiser(c, kind, limits):
    """The result of the minimiser, for any function"""
    M = c.M
    n = c.size("N", min=1, max=4)
    f, value, g = objective(c)
    if kind == "float":
        x0 = c.array("x0", n, -3, 3, extra=(0.0,))
    elif c.symbolic:
        x0 = c.s.SArr(c.s.Node((c.s.axis_of_len(c.s._t(n)),), lambda i: c.t.app("x0", (i,), isint=True), "i"))
    else:
        x0 = c.array_of([c.choice("x%d" % k, [1, 2, -3, 0, 10]) for k in range(n)])
    opt = {}
    if limits:
        opt["maxfev"] = c.num("fev", isint=True, lo=0, hi=60)
        opt["maxiter"] = c.num("iter", isint=True, lo=0, hi=30)
    opt["xtol"], opt["ftol"] = c.num("xtol", lo=1e-6, hi=0.1, pos=True), c.num("ftol", lo=1e-6, hi=0.1, pos=True)
    maxfev = opt.get("maxfev", n * 200)
    maxiter = opt.get("maxiter", n * 200)
    if c.symbolic:
        st = c.s._t
        mf, mi = st(maxfev), st(maxiter)
        c.loops(Start(c, value, g, n), Main(c, value, g, n, mf, mi), Shrink(c, value, g, n))
        n1 = c.t.add(st(n), c.t.ONE)
        plus = c.t.add
    else:
        st = lambda x: x
        mf, mi, n1 = maxfev, maxiter, n + 1
        plus = lambda a, b: a + b
    start = value(x0)
    r = c.fn_of("extern.minimize", "minimize")(f, x0, options=opt, method="Nelder-Mead")
    fun, nit, nfev, status = c.V(r["fun"]), st(r["nit"]), st(r["nfev"]), st(r["status"])
    if c.symbolic:
        status = c.t.const(status)
    c.ensure_eq("the value reported is that of the point returned", fun, value(r["x"]))
    c.ensure("not worse than the start", M.le(fun, start))
    c.ensure_eq("the best of all points evaluated", fun, g["best"])
    c.ensure_eq("the number of evaluations reported", nfev, g["calls"])
    c.ensure("no more evaluations than allowed", M.or_(M.le(nfev, n1), M.le(nfev, plus(mf, n1))))
    c.ensure("no more iterations than allowed", M.or_(M.le(nit, 1), M.le(nit, mi)))
    ok = r["success"]
    c.ensure_eq("success is status 0", ok if c.concrete or isinstance(ok, bool) else c.s.as_arr(ok).scalar(), M.eq(status, 0))
    c.ensure("status 1: evaluations", M.or_(M.not_(M.eq(status, 1)), M.le(mf, nfev)))
    c.ensure("status 2: iterations", M.or_(M.not_(M.eq(status, 2)), M.le(mi, nit)))
    c.ensure("status 0: no limit", M.or_(M.not_(M.eq(status, 0)), M.and_(M.lt(nfev, mf), M.lt(nit, mi))))
    c.ensure_is("size of the point", len(r["x"]) == n if c.concrete else c.length(r["x"]) is c.s._t(n))


MIN = ("extern.minimize.minimize", "extern.minimize._minimize_neldermead", "extern.minimize.wrap_function")
for _kind, _limits in (("float", True), ("float", False), ("int", True)):

    @P.contract(*MIN, samples=80, max_paths=400, budget=300)
    def _minimise(c, _kind=_kind, _limits=_limits):
        minimiser(c, _kind, _limits)

    P.harnesses[-1].name = "minimiser_%s_%s" % (_kind, "limits" if _limits else "default")


# ------------------------------------------------------------ the preliminary fit
CALLEE = "in the contract of _prefit, minimize stands for its own contract (proved above) and lnprobmodel for an arbitrary function (its value: property P17)"


def _callee(pkg):
    """minimize, by its contract: any point not worse than the start, with its value"""
    from pyvc import sym, terms as t

    def make(original):
        def minimize(func, x0, args=(), options={}, method=None):
            ex = sym.EX
            x0 = sym.as_arr(x0)
            nm = "xmin!%d" % t._fresh[0]
            t._fresh[0] += 1
            x = sym.SArr(sym.Node(x0.axes, lambda i: t.app(nm, (i,)), "f"))
            start, fun = func(x0, *args), func(x, *args)
            ex.add(t.le(sym._t(fun), sym._t(start)))
            status = 2
            for k in (0, 1):
                if ex.decide(t.bsym("status=%d" % k)):
                    status = k
                    break
            ex.found = (x, status)
            return {"x": x, "fun": fun, "nit": 1, "nfev": 1, "status": status, "success": status == 0, "message": ""}

        return minimize

    pkg.stubs["minimize"] = ("naima.extern.minimize", "minimize", make)


@P.contract("core._prefit", "core.lnprob", stubs=(_callee, _likelihood), assumes=[CALLEE], samples=100)
def prefit(c):
    """The result is the point found, where the prior allows it, or the starting parameters"""
    M = c.M
    form = c.choice("form", list(FORMS))
    d, n = _data(c, form)
    np_ = c.size("N", min=1, max=3)
    # (sampled runs: parameters of any magnitude)
    size = 1 if c.symbolic else 10.0 ** c.choice("magnitude", [0, -14, 12, 0])
    p0 = c.array("p0", np_, 0.5, 2, pos=True)
    if c.concrete:
        p0 = p0 * size
    kind = c.forall("prior", ["none", "number", "excludes all others"])
    m = c.qarray("m", form, n, lo=0.1, hi=10, ref=FORMS[form])
    w = c.num("p", lo=-100, hi=10)
    at = []
    if c.symbolic:
        s, t = c.s, c.t

        def model(pars, data):
            A = s._arrterm(s.as_arr(pars))
            return s.SymQ._mk(s.SArr(s.Node(m.val.axes, lambda *i: t.mul(m.val.at(*i), t.app("model", (A,) + i)), "f")), m.unit)

        inf = c.naima.core.np.inf
        number = lambda pars: s.num(t.add(s._t(w), t.app("prior", (s._arrterm(s.as_arr(pars)),))))
    else:
        import numpy as np

        p0.setflags(write=False)

        def model(pars, data):
            pars = np.asarray(pars) / size
            return m * (1 + 0.5 * np.sin(np.sum(pars)) ** 2 + (pars[0] - 1) ** 2)

        inf = np.inf
        number = lambda pars: w - float(np.sum((np.asarray(pars) / size) ** 2))

    def prior(pars):
        at.append(pars)
        if kind == "excludes all others" and pars is not p0 and not (c.concrete and np.array_equal(pars, p0)):
            return -inf
        return number(pars)

    before = p0.node if c.symbolic else p0.copy()
    found = []
    if c.concrete:
        import naima.extern.minimize as mod

        minimize = mod.minimize

        def recorded(*a, **k):
            found.append(minimize(*a, **k))
            return found[-1]

        mod.minimize = recorded
    try:
        new, best = c.fn_of("core", "_prefit")(p0, d, model, None if kind == "none" else prior)
    finally:
        if c.concrete:
            mod.minimize = minimize
    if found:
        c.ensure_is("the point found or the start", (np.array_equal(new, p0) or np.array_equal(new, found[-1]["x"])))
    like = lambda pars: _expected(c, model(pars, d), d)
    c.ensure_is("the start is not modified", p0.node is before if c.symbolic else bool((p0 == before).all()))
    c.ensure("not less likely than the start", M.le(like(p0) - (0 if c.symbolic else 1e-9 * abs(like(p0))), like(new)))
    if kind == "excludes all others":
        c.ensure_is("a point that the prior excludes is not used", new is p0 or c.concrete and bool((new == p0).all()))
    if c.symbolic:
        x, status = c.ex.found
        used = new is not p0
        c.ensure_is("the point found or the start", new is x or new is p0)
        c.ensure_is("a failed fit leaves the start", not used or status in (0, 1))
        c.ensure_is("a successful fit is used where the prior allows it", used or status == 2 or kind == "excludes all others")
        c.ensure_is("flagged as most likely exactly after a fit that converged", bool(best) == (used and status == 0))
