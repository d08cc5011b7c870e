"""P02: table models and absorption by extragalactic background light"""
from fractions import Fraction as F

from pyvc.loader import _Interp1d as interp1d
from pyvc.report import Property

P = Property("P02")
_m = "naima.models.TableModel."
_e = "naima.models.EblAbsorptionModel."
SPLINE = "scipy's interp1d is an interpolant: it passes through its points whatever their order, reproduces straight lines, is a function of the points and of where it is evaluated, and returns the fill value outside of the range"


def _log10(c, x):
    return c.M.log10(x)


def _table(c, n=None, units=True):
    n = c.size("n", min=4, max=8) if n is None else n
    e = c.qarray("E", "energy", n, lo=1e-2, hi=1e2, ref="TeV", log=True)
    kind = c.forall("values", ["quantity", "numbers"]) if units else "numbers"
    if kind == "quantity":
        v = c.qarray("v", "amplitude", n, lo=1e-3, hi=1e3, ref="1/TeV", log=True)
        u = "1/TeV"
    else:
        v = c.array("v", n, lo=1e-3, hi=1e3, log=True, pos=True)
        u = ""
    if c.concrete:
        c.order(e)
        x = sorted(float(k) for k in e.to("TeV").value)
        c.assume(all(b > a * 1.01 for a, b in zip(x, x[1:])))
    return n, e, v, u


@P.contract(_m + "__call__", _m + "__init__", samples=200, assumes=[SPLINE], rtol=1e-6)
def at_the_points(c):
    """At the energies of the table: the value of the table times the amplitude"""
    n, e, v, u = _table(c)
    a = c.num("amplitude", lo=0.1, hi=10, pos=True)
    m = c.naima.models.TableModel(e, v, amplitude=a)
    r = m(e)
    c.ensure_shape("shape", r, e)
    for (i,) in c.indices(n):
        if c.concrete and float(e[i].value) in (e.value.min(), e.value.max()):
            continue  # may be outside by rounding
        c.ensure_eq("value", c.At(r, i, u), c.V(a) * c.At(v, i, u or None))


@P.contract(_m + "__call__", _m + "__init__", samples=200, assumes=[SPLINE])
def outside(c):
    """Zero outside of the table"""
    n, e, v, u = _table(c)
    below = c.forall("below", [True, False])
    x = c.quantity("x", "energy", lo=1e-6, hi=1e6, ref="TeV", log=True)
    less = lambda a, b: c.M.lt(a, b) if below else c.M.lt(b, a)
    if c.concrete:
        c.assume(all(less(c.V(x, "TeV"), float(k) * (0.999 if below else 1.001)) for k in e.to("TeV").value))
    else:
        t = c.t
        nn = c.s._t(n)
        beyond = lambda idx, bases: [less(c.M.log(c.V(x, "eV")), c.M.log(c.At(e, idx[0], "eV")))] if len(idx) == 1 and bases[0] is nn else []
        c.ex.axioms = list(c.ex.axioms) + [beyond]
    m = c.naima.models.TableModel(e, v, amplitude=c.num("amplitude", lo=0.1, hi=10, pos=True))
    c.ensure_eq("value", c.V(m(x), u), 0)


@P.contract(_m + "__call__", samples=200, assumes=[SPLINE], rtol=1e-6)
def amplitude(c):
    """Everywhere proportional to the amplitude, in the unit of the values"""
    n, e, v, u = _table(c)
    a = c.num("amplitude", lo=0.1, hi=10, pos=True)
    x = c.qarray("x", "energy", c.size("nx", min=1, max=4), lo=1e-3, hi=1e3, ref="TeV", log=True)
    T = c.naima.models.TableModel
    one, m = T(e, v)(x), T(e, v, amplitude=a)(x)
    c.ensure_shape("shape", m, x)
    for i in c.each(x):
        c.ensure_eq("value", c.At(m, i, u), c.V(a) * c.At(one, i, u))
    if u:
        c.ensure_is("unit", m.unit == v.unit)


@P.contract(_m + "__init__", _m + "__call__", samples=200, assumes=[SPLINE], rtol=1e-6)
def any_unit(c):
    """The unit of the table's energies does not matter"""
    n, e, v, u = _table(c)
    other = c.unit("other", "energy")
    x = c.quantity("x", "energy", lo=1e-2, hi=1e2, ref="TeV", log=True)
    if c.concrete:
        lo, hi = e.min(), e.max()
        c.assume(abs(float(x / lo) - 1) > 1e-6 and abs(float(x / hi) - 1) > 1e-6)
    T = c.naima.models.TableModel
    c.ensure_eq("value", c.V(T(e.to(other), v)(x), u), c.V(T(e, v)(x), u))


@P.contract(_m + "__init__", _m + "__call__", samples=200, assumes=[SPLINE], rtol=1e-6)
def between(c):
    """A table that follows a power law is that power law between its points, in any unit"""
    n, e, v, u = _table(c, units=False)
    p, k = c.real("index", lo=-4, hi=4), c.real("norm", lo=1e-3, hi=1e3, log=True, pos=True)
    un = c.unit("unit", "amplitude")
    x = c.real("x", lo=1e-2, hi=1e2, pos=True)
    if c.symbolic:
        s = c.s
        c.ex.slopes = [p]
        E = e.to("TeV").val
        table = s.SymQ(s.unop(lambda a: k * c.M.pow(a, p), E), un)
        # an energy between two of the table
        for name, less in (("i", lambda a, b: c.t.le(a, b)), ("j", lambda a, b: c.t.le(b, a))):
            (j,) = c.indices(n)[0]
            c.assume(less(c.M.log(E.at(j)), c.M.log(x)))
        x = s.num(x)
    else:
        E = e.to("TeV").value
        c.assume(E.min() * 1.001 < x < E.max() * 0.999)
        table = k * E**p * un
    m = c.naima.models.TableModel(e, table)
    c.ensure_eq("value", c.V(m(c.Q(x, "TeV")), un), k * c.M.pow(c.V(x), p))


@P.contract(_m + "__init__", _m + "__call__", samples=200, assumes=[SPLINE], rtol=1e-6)
def spline(c):
    """Between the points the cubic spline through them in log-log"""
    n, e, v, u = _table(c, c.size("n", min=4, max=20))
    x = c.quantity("x", "energy", lo=1e-2, hi=1e2, ref="TeV", log=True)
    m = c.naima.models.TableModel(e, v)
    if c.symbolic:
        s, t = c.s, c.t
        for name, less in (("i", t.le), ("j", lambda a, b: t.le(b, a))):
            (j,) = c.indices(n)[0]
            c.assume(less(c.M.log(c.At(e, j, "eV")), c.M.log(c.V(x, "eV"))))
        np = c.naima.utils.np
        f = interp1d(np.log10(e.to("eV").val), np.log10(v.val if u else v), kind="cubic", fill_value=0, bounds_error=False)
        want = c.M.pow(10, c.V(f(np.log10(s.num(c.V(x, "eV"))))))
        if u:
            want = want * c.scale(v.unit) / c.scale(c.u(u))
    else:
        import numpy as np
        from scipy.interpolate import CubicSpline

        E = e.to_value("TeV")
        c.assume(E.min() * 1.001 < x.to_value("TeV") < E.max() * 0.999)
        o = np.argsort(E)
        want = 10 ** float(CubicSpline(np.log10(E[o]), np.log10(v.to_value(u)[o] if u else v[o]))(np.log10(x.to_value("TeV"))))
    c.ensure_eq("value", c.V(m(x), u or None), want)


@P.contract(_m + "__init__", _m + "__call__", samples=200, symbolic=False, why="the interpolation between the points, and its order, are a library's", rtol=1e-6)
def order(c):
    """The order of the rows does not matter"""
    import numpy as np

    n, e, v, u = _table(c)
    E = e.to("TeV").value
    x = c.Q(c.real("x", lo=1e-2, hi=1e2, pos=True), "TeV")
    c.assume(E.min() * 1.001 < x.value < E.max() * 0.999)
    o = np.argsort(E)
    T = c.naima.models.TableModel
    c.ensure_eq("value", c.V(T(e[o], v[o])(x), u), c.V(T(e, v)(x), u))


@P.contract(_m + "__init__", _m + "__call__", samples=40)
def refused(c):
    """What is not an energy"""
    n, e, v, u = _table(c)
    bad = c.qarray("bad", "length", n, lo=1, hi=2)
    T = c.naima.models.TableModel
    c.ensure_raises("table", TypeError, lambda: T(bad, v))
    c.ensure_raises("table without unit", TypeError, lambda: T(c.array("bare", n, lo=1, hi=2, pos=True), v))
    m = T(e, v)
    c.ensure_raises("argument", TypeError, lambda: m(bad))


# ---------------------------------------------------------------- absorption
DATA = "the file of optical depths: energies that increase from 1 GeV to 100 TeV and depths that are not negative, one column for every 0.01 of the redshift (checked at run time by the contract `data`)"


def _energy(t, n, i):
    if i is t.ZERO:
        return t.const(F(1, 1000))
    if i is t.add(n, t.MINUS1):
        return t.const(100)
    return t.app("energy", (i,), pos=True)


def _file_stub(pkg):
    from pyvc import sym, terms as t

    class File:
        def __getitem__(self, name):
            n = t.sym("rows", pos=True, isint=True)
            ax = sym.axis_of_len(n)
            if name == "energy":
                return sym.SArr(sym.Node((ax,), lambda i: _energy(t, n, i), "f"))
            if not name.startswith("col"):
                raise KeyError(name)
            k = name[3:]
            k = t.const(int(k)) if k.isdigit() else sym.WRITTEN[k]
            return sym.SArr(sym.Node((ax,), lambda i: t.app("depth", (k, i), nonneg=True), "f"))

        def __contains__(self, name):
            raise t.Unsupported("names of a file")

    def make(original):
        class Numpy:
            def __getattr__(self, n):
                return getattr(original, n)

            def load(self, name, **k):
                if not name.endswith("tau_dominguez11.npz"):
                    raise OSError(name)
                return {"arr_0": File()}

        return Numpy()

    pkg.stubs["np"] = ("naima.models", "np", make)


def _facts(c):
    """What is known of the file"""
    t = c.t
    n = t.sym("rows", pos=True, isint=True)
    E = lambda i: _energy(t, n, i)
    last = t.add(n, t.MINUS1)
    c.assume(t.le(t.const(4), n))

    def ordered(idx, bases):
        if len(idx) != 1 or bases[0] is not n:
            return []
        e = E(idx[0])
        return [t.le(c.M.q(1, 1000), e), t.le(e, t.const(100)), t.le(c.M.log(c.M.q(1, 1000)), c.M.log(e)), t.le(c.M.log(e), c.M.log(t.const(100)))]

    c.ex.axioms = list(c.ex.axioms) + [ordered]
    for i in (t.ZERO, last):
        for f in c.ex.instantiate((i,), (n,)):
            c.ex.add(f)
    return n, E


def _model(c, z):
    z = c.Q(z, "") if c.forall("quantity", [True, False]) else (c.s.num(z) if c.symbolic else z)
    return c.naima.models.EblAbsorptionModel(z)


@P.contract(_e + "transmission", _e + "__init__", samples=300, stubs=(_file_stub,), assumes=[SPLINE, DATA])
def transmission(c):
    """A number from 0 to 1 for every redshift and energy; 1 below the table, and above it what it is at its end"""
    z = c.real("z", lo=1e-3, hi=4.5, pos=True)
    if c.symbolic:
        n, E = _facts(c)
    m = _model(c, z)
    x = c.qarray("x", "energy", c.size("n", min=1, max=4), lo=1e-4, hi=1e3, ref="TeV", log=True, extra=(1e-3, 1e2))
    r = m.transmission(x)
    top = m.transmission(c.Q(c.array_of([100]), "TeV"))
    c.ensure_shape("shape", r, x)
    for i in c.each(x):
        v, e = c.At(r, i), c.At(x, i, "TeV")
        c.ensure("not negative", c.M.le(0, v))
        c.ensure("at most one", c.M.le(v, 1))
        low = c.M.lt(e, c.M.q(1, 1000)) if c.symbolic else e < 0.000999999
        c.ensure("below the table", c.M.or_(c.M.not_(low), c.M.eq(v, 1)))
        high = c.M.lt(100, e) if c.symbolic else e > 100.000001
        c.ensure("above the table", c.M.or_(c.M.not_(high), c.M.eq(v, c.At(top, 0))))


@P.contract(_e + "transmission", _e + "__init__", samples=300, stubs=(_file_stub,), assumes=[SPLINE, DATA], rtol=1e-6)
def depth(c):
    """At the energies of the file: the optical depth of the nearest redshift, at most 150"""
    import numpy as np

    z = c.real("z", lo=0.01, hi=4.5, pos=True, extra=(0.01, 0.02, 1.0, 3.99, 4.0))
    if c.symbolic:
        t = c.t
        n, E = _facts(c)
        c.assume(t.le(c.M.q(0.01), z))
        k = t.app("argmin", (c.s._arrterm(c.s.unop(lambda d: t.absv(t.add(d, t.neg(z))), c.s.np.arange(0.01, 4, 0.01))),), nonneg=True, isint=True)
    else:
        data = np.load(c.naima.__path__[0] + "/data/tau_dominguez11.npz")["arr_0"]
    m = _model(c, z)
    if c.symbolic:
        (i,) = c.indices(n)[0]
        e, tau = E(i), t.app("depth", (t.add(k, t.const(2)), i), nonneg=True)
    else:
        i = c.choice("row", range(len(data)))
        col = int(np.argmin([abs(0.01 * j - z) for j in range(1, 400)])) + 2
        c.assume(abs((z * 100) % 1 - 0.5) > 1e-6)
        e, tau = float(data["energy"][i]), float(data["col%d" % col][i])
    r = m.transmission(c.Q(c.array_of([e]), "TeV"))
    c.ensure_eq("exp(-tau)", c.At(r, 0), c.M.exp(-c.M.min(tau, 150)))


@P.contract(_e + "transmission", _e + "__init__", samples=60, stubs=(_file_stub,), assumes=[SPLINE, DATA])
def nearby(c):
    """No absorption at redshifts below those of the file"""
    z = c.real("z", lo=1e-4, hi=0.00999, pos=True)
    if c.symbolic:
        _facts(c)
        c.assume(c.t.lt(z, c.M.q(0.01)))
    m = _model(c, z)
    x = c.qarray("x", "energy", c.size("n", min=1, max=4), lo=1e-4, hi=1e3, ref="TeV", log=True)
    r = m.transmission(x)
    for i in c.each(x):
        c.ensure_eq("no absorption", c.At(r, i), 1)


@P.contract(_e + "__init__", samples=40, stubs=(_file_stub,))
def ebl_refused(c):
    """Redshifts that are not positive numbers, and other models"""
    M = c.naima.models.EblAbsorptionModel
    z = c.real("z", lo=0.1, hi=4, pos=True)
    z = c.s.num(z) if c.symbolic else z
    c.ensure_raises("negative", ValueError, lambda: M(-z))
    c.ensure_raises("unit", TypeError, lambda: M(c.Q(z, "TeV")))
    c.ensure_raises("model", ValueError, lambda: M(z, "Franceschini"))


@P.contract(_e + "transmission", samples=1, symbolic=False, bounded="the file, and 300 energies for every seventh of its redshifts", why="the optical depths are data")
def data(c):
    """The file of optical depths is what the contracts assume of it, and the transmission that follows from it"""
    import numpy as np

    d = np.load(c.naima.__path__[0] + "/data/tau_dominguez11.npz")["arr_0"]
    e = d["energy"]
    c.ensure_is("energies", e[0] == 1e-3 and e[-1] == 100 and bool(np.all(np.diff(e) > 0)))
    c.ensure_is("columns", d.dtype.names[1:] == tuple("col%d" % k for k in range(2, 401)))
    c.ensure_is("depths", all(bool(np.all(d[k] >= 0)) for k in d.dtype.names))
    x = c.Q(np.logspace(-3.5, 2.5, 300), "TeV")
    for k in range(1, 400, 7):
        r = c.naima.models.EblAbsorptionModel(k / 100).transmission(x)
        c.ensure_is("opaque where it should be", bool(np.all((r >= 0) & (r <= 1))) and bool(np.all(r[x.value > 100] <= r[x.value < 100][-1] * (1 + 1e-9))))
