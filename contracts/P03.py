"""P03: the log-log integral is the exact integral of the power-law interpolation."""
from pyvc.report import Property

P = Property("P03")
P.lemmas = ["LogLog.lean", "Axioms.lean", "Rules.lean"]
_u = "naima.utils."


def _bin(c, y0, y1, x0, x1):
    """Integral of y0*(x/x0)**b between x0 and x1, b given by the two points; nothing where
    one of the values is zero (lemma: /verif/lemmas/LogLog.lean)"""
    M = c.M

    def closed():
        b = M.log(y1 / y0) / M.log(x1 / x0)
        return M.ite(
            M.lt(M.q(1e-10), M.abs(b + 1)),
            lambda: y0 * (x1 * M.pow(x1 / x0, b) - x0) / (b + 1),
            lambda: x0 * y0 * M.log(x1 / x0),
        )

    return M.ite(M.or_(M.eq(y0, 0), M.or_(M.eq(y1, 0), M.eq(x0, x1))), 0, closed)


def _xs(c, n, unit=True):
    """Abscissae: positive, in any order (they can repeat)"""
    kind = c.choice("order", ["increasing", "any"])
    wide = c.choice("range", [False, True])
    return c.array("x", n, lo=1e-9 if wide else 1e-2, hi=1e18 if wide else 1e3, pos=True, sorted=kind == "increasing")


@P.contract(_u + "trapz_loglog", rtol=1e-6)
def bins(c):
    """Each interval"""
    n = c.size("n", min=2)
    x = _xs(c, n)
    y = c.array("y", n, lo=1e-3, hi=1e3, nonneg=True, log=True, extra=(0.0, 1e-3, 1e3))
    r = c.naima.utils.trapz_loglog(y, x, intervals=True)
    for (i,) in c.each(r):
        x0, x1, y0, y1 = c.At(x, i), c.At(x, i + 1), c.At(y, i), c.At(y, i + 1)
        c.ensure_eq("integral of an interval", c.At(r, i), _bin(c, y0, y1, x0, x1))


@P.contract(_u + "trapz_loglog", rtol=1e-6)
def total(c):
    """The integral is the sum of the intervals, in the product of the units"""
    n = c.size("n", min=2)
    ux, uy = c.unit("ux", "energy"), c.unit("uy", "differential power")
    x = _xs(c, n)
    y = c.array("y", n, lo=1e-3, hi=1e3, nonneg=True, log=True, extra=(0.0,))
    kind = c.forall("units", ["none", "x", "y", "both"])
    qx = c.Q(x, ux) if kind in ("x", "both") else x
    qy = c.Q(y, uy) if kind in ("y", "both") else y
    r = c.naima.utils.trapz_loglog(qy, qx)
    out = {"none": None, "x": "eV", "y": "1/(eV s)", "both": "1/s"}[kind]
    s = c.M.sum(n - 1 if not c.symbolic else c.length(c.naima.utils.trapz_loglog(y, x, intervals=True)), lambda k: _bin(c, c.At(y, k), c.At(y, k + 1), c.At(x, k), c.At(x, k + 1)))
    scale = 1
    if kind in ("x", "both"):
        scale = scale * c.scale(ux)
    if kind in ("y", "both"):
        scale = scale * c.scale(uy)
    if out:
        c.ensure_unit("unit of the integral", r, out)
        scale = scale / c.scale(out)
    c.ensure_eq("integral", c.V(r, out), s * scale)


@P.contract(_u + "trapz_loglog", rtol=1e-6)
def axis(c):
    """Two dimensions, along either axis"""
    n, m = c.size("n", min=2), c.size("m", min=2)
    y = c.matrix("y", n, m, lo=1e-3, hi=1e3, pos=True)
    ax = c.forall("axis", [0, 1, -1])
    x = c.array("x", n if ax == 0 else m, lo=1e-2, hi=1e3, pos=True, sorted=True)
    r = c.naima.utils.trapz_loglog(y, x, axis=ax)
    ln = (n if ax == 0 else m)
    for (i,) in c.each(r):
        f = (lambda k: (k, i)) if ax == 0 else (lambda k: (i, k))
        row = y[:, i] if ax == 0 and not c.symbolic else y[i] if not c.symbolic else None
        k1 = ln - 1 if not c.symbolic else c.t.add(c.s._t(ln), c.t.MINUS1)
        s = c.M.sum(k1, lambda k: _bin(c, c.At(y, f(k)), c.At(y, f(k + 1)), c.At(x, k), c.At(x, k + 1)))
        c.ensure_eq("integral along an axis", c.At(r, i), s)


@P.contract(_u + "trapz_loglog", rtol=1e-6)
def homogeneous(c):
    """Scaling the ordinates or the abscissae scales the integral"""
    n = c.size("n", min=2)
    x = c.array("x", n, lo=1e-2, hi=1e3, pos=True, sorted=True)
    y = c.array("y", n, lo=1e-3, hi=1e3, nonneg=True, log=True)
    k = c.num("k", lo=1e-3, hi=1e3, pos=True)
    f = c.naima.utils.trapz_loglog
    a = c.V(f(y, x))
    kk = c.V(k)
    c.ensure_eq("scaled ordinates", c.V(f(k * y, x)), kk * a)
    c.ensure_eq("scaled abscissae", c.V(f(y, k * x)), kk * a)


@P.contract(_u + "trapz_loglog", rtol=1e-6)
def power_law(c):
    """Exact for a power law, whatever the sampling: the sum of the intervals telescopes"""
    n = c.size("n", min=2)
    x = c.array("x", n, lo=1e-2, hi=1e3, pos=True, sorted=True)
    g = c.num("g", lo=-4, hi=4)
    a = c.num("a", pos=True)
    c.assume(c.M.lt(c.M.q(1e-3), c.M.abs(c.V(g) + 1)))
    y = a * x ** g
    r = c.naima.utils.trapz_loglog(y, x, intervals=True)
    F = lambda z: c.V(a) * c.M.pow(z, c.V(g) + 1) / (c.V(g) + 1)
    for (i,) in c.each(r):
        c.ensure_eq("interval of a power law", c.At(r, i), F(c.At(x, i + 1)) - F(c.At(x, i)))


@P.contract(_u + "trapz_loglog", rtol=1e-5)
def near_minus_one(c):
    """Power laws about as steep as 1/x, whose integral is nearly a logarithm"""
    M = c.M
    n = c.size("n", min=2)
    x = c.array("x", n, lo=1e-6, hi=1e9, pos=True, sorted=True)
    g = c.num("g", lo=-1.01, hi=-0.99, extra=[-1 + k * 10.0**-e for e in range(3, 8) for k in (-1, 1)] * 9)
    a = c.num("a", pos=True)
    d = c.V(g) + 1
    c.assume(M.lt(M.q(1e-10), M.abs(d)))
    if not c.symbolic:
        # what is left after cancellation has to be enough for the tolerance
        c.assume(abs(d) > 0.9e-7 and all(x[k + 1] > 1.01 * x[k] for k in range(n - 1)))
    r = c.naima.utils.trapz_loglog(a * x**g, x, intervals=True)

    def exact(x0, x1):
        if c.symbolic:
            return c.V(a) * (M.pow(x1, d) - M.pow(x0, d)) / d
        import math

        return a * x0**d * math.expm1(d * math.log(x1 / x0)) / d

    for (i,) in c.each(r):
        c.ensure_eq("interval", c.At(r, i), exact(c.At(x, i), c.At(x, i + 1)))


@P.contract(_u + "trapz_loglog", rtol=1e-6)
def nonnegative(c):
    """Where the ordinates are positive and the abscissae increase, no interval is negative
    (an interval with a zero is zero: contract bins)"""
    M = c.M
    n = c.size("n", min=2)
    x = c.array("x", n, lo=1e-2, hi=1e3, pos=True, sorted=True)
    y = c.array("y", n, lo=1e-3, hi=1e3, pos=True, log=True)
    r = c.naima.utils.trapz_loglog(y, x, intervals=True)
    for (i,) in c.each(r):
        x0, x1, y0, y1 = c.At(x, i), c.At(x, i + 1), c.At(y, i), c.At(y, i + 1)

        def stmt(x0, x1, y0, b):
            v = y0 * (x1 * M.pow(x1 / x0, b) - x0) / (b + 1)
            return M.or_(M.le(x1, x0), M.or_(M.eq(b, -1), M.le(0, v)))

        lg = lambda x0, x1: M.or_(M.le(x1, x0), M.lt(0, M.log(x1 / x0)))

        def by(x0, x1, y0, b):
            z = (b + 1) * M.log(x1 / x0)
            c.instance("logarithmic interval", lg, x0, x1)
            c.instance("exponential", lambda z: M.le(0, (M.exp(z) - 1) * z), z, real=(0,))

        c.instance("interval of a power law", stmt, x0, x1, y0, M.log(y1 / y0) / M.log(x1 / x0), real=(3,), by=by)
        c.instance("logarithmic interval", lg, x0, x1)
        c.ensure("interval is not negative", c.M.le(0, c.At(r, i)))


@P.contract("naima.radiative.BaseElectron._gam", "naima.radiative.BaseProton._Ep", concrete=False)
def sampling(c):
    """The geometric sampling between two energies increases (lemma used by the spectra)"""
    M = c.M
    lo, r = c.real("lo", pos=True), c.real("r", pos=True)
    n = c.real("n", pos=True, isint=True)
    c.assume(M.lt(1, r))
    c.assume(M.le(2, n))
    k = c.real("k", nonneg=True, isint=True)
    L = M.log(r)
    c.lemma("the logarithm is positive", M.lt(0, L))
    c.lemma("steps are positive", M.lt(0, L / (n - 1)))
    x = lambda j: lo * M.pow(r, j / (n - 1))
    c.ensure("samples are positive", M.lt(0, x(k)))
    c.ensure("samples increase", M.lt(x(k), x(k + 1)))
