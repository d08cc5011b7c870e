"""P11: Bremsstrahlung cross sections and emission"""
from pyvc.report import Property
from .common import particles, tll_stub, ee_stub, TLL, EE, grid, mec2

P = Property("P11")
_r = "naima.radiative.Bremsstrahlung."


def _r02alpha(c):
    """Square of the classical electron radius times the fine structure constant [cm2]"""
    m = mec2(c, "erg")
    r0 = c.const("e_esu") * c.const("e_esu") / m
    return r0 * r0 * c.const("alpha")


def sigma1(c, g, e):
    """Baring et al. 1999, eq. A2, in cm2 per mec2; none from an electron of less energy"""
    M, q = c.M, c.M.q
    v = lambda: (1 + (q(1, 3) - e / g) * (1 - e / g)) * (M.log(2 * g * (g - e) / e) - q(1, 2)) * 4 * _r02alpha(c) / e
    return M.ite(M.lt(e, g), v, 0)


def sigma2(c, g, e):
    """Eq. A3, in the two ranges of photon energy"""
    M, q = c.M, c.M.q

    def low():
        return (
            16 * (1 - e + e * e) * M.log(g / e)
            - 1 / (e * e) + 3 / e - 4 - 4 * e - 8 * e * e
            - 2 * (1 - 2 * e) * M.log(1 - 2 * e) * (1 / (4 * e * e * e) - 1 / (2 * e * e) + 3 / e - 2 + 4 * e)
        )

    def high():
        return 2 / e * ((4 - 1 / e + 1 / (4 * e * e)) * M.log(2 * g) - 2 + 2 / e - 5 / (8 * e * e))

    v = lambda: M.ite(M.lt(e, q(1, 2)), low, high) * _r02alpha(c) / (3 * e)
    step = M.ite(M.lt(e, g), 1, lambda: M.ite(M.eq(e, g), q(1, 2), 0))
    return M.ite(M.le(e, g), lambda: v() * step, 0)


def relativistic(c, g, e):
    """Eqs. A1, A4"""
    M, q = c.M, c.M.q
    A = 1 - q(8, 3) * M.pow(g - 1, q(1, 5)) / (g + 1) * M.pow(e / g, q(1, 3))
    return (sigma1(c, g, e) + sigma2(c, g, e)) * A


def F(c, x, g):
    """Eqs. A6, A7"""
    M, q = c.M, c.M.q
    b = M.sqrt(1 - 1 / (g * g))
    w = M.sqrt(1 - x)
    C = 10 * x * g * b * (2 + g * b) / (1 + x * x * (g * g - 1))
    return (1 + q(1, 2) * (g * g - 1)) * (17 - 3 * x * x / ((2 - x) * (2 - x)) - C) * w + (
        12 * (2 - x) - 7 * x * x / (2 - x) - 3 * x * x * x * x / ((2 - x) * (2 - x) * (2 - x))
    ) * M.log((1 + w) / M.sqrt(x))


def nonrelativistic(c, g, e):
    """Eq. A5, none above a quarter of gam**2 - 1"""
    M, q = c.M, c.M.q
    v = lambda: 4 * _r02alpha(c) / (15 * e) * F(c, 4 * e / (g * g - 1), g)
    return M.ite(M.and_(M.le(1, g), M.lt(4 * e, g * g - 1)), v, 0)


def _energies(c, lo, hi):
    """Electron energies in a column, photon energies in a row, in mec2"""
    n, m = c.size("n", min=1, max=4), c.size("m", min=1, max=4)
    gam = c.array("gam", n, lo=lo, hi=hi, pos=True, whole=False, extra=(lo, 2.0, 3.9, 4.0))
    eps = c.array("eps", m, lo=1e-3, hi=hi, pos=True, whole=False, extra=(0.5, lo, 2.0))
    if c.symbolic:
        col = c.naima.radiative.np.vstack(gam)
    else:
        import numpy as np

        col = np.vstack(gam)
    return gam, eps, col


def _model(c, **k):
    pd, _ = particles(c)
    return c.naima.radiative.Bremsstrahlung(pd, **k)


def _far(c, g, e):
    """Away from the kinematic limits, where terms cancel"""
    if not c.symbolic:
        c.assume(e == g or abs(e / g - 1) > 1e-6)
        c.assume(e == 0.5 or abs(2 * e - 1) > 1e-6)
        c.assume(abs(4 * e / (g * g - 1 + 1e-300) - 1) > 1e-6)


def _check(c, gam, eps, r, f, unit, per):
    for i, j in c.each(r):
        g, e = c.At(gam, i), c.At(eps, j)
        _far(c, g, e)
        s = f(c, g, e)
        c.ensure_eq("cross section", c.At(r, (i, j), unit) * per, s, atol=0 if c.symbolic else 1e-8 * abs(_r02alpha(c) / e))



@P.contract(_r + "_sigma_1", rtol=1e-6)
def sigma_1(c):
    gam, eps, col = _energies(c, 1.0, 1e6)
    r = _model(c)._sigma_1(col, eps)
    _check(c, gam, eps, r, sigma1, "cm2/erg", mec2(c, "erg"))


@P.contract(_r + "_sigma_2", "naima.radiative.heaviside", rtol=1e-6)
def sigma_2(c):
    gam, eps, col = _energies(c, 1.0, 1e6)
    r = _model(c)._sigma_2(col, eps)
    if c.symbolic:
        _check(c, gam, eps, r, sigma2, "cm2/erg", mec2(c, "erg"))
    else:
        for i, j in c.each(r):
            g, e = c.At(gam, i), c.At(eps, j)
            _far(c, g, e)
            if e > 1e-2:
                c.ensure_eq("cross section", c.At(r, (i, j), "cm2/erg") * mec2(c, "erg"), sigma2(c, g, e), atol=1e-7 * abs(_r02alpha(c) / e))


@P.contract(_r + "_F", rtol=1e-6)
def F_function(c):
    M = c.M
    n = c.size("n", min=1, max=4)
    x = c.array("x", n, lo=1e-4, hi=0.99, pos=True, whole=False)
    g = c.num("gam", lo=1.01, hi=10, pos=True)
    c.assume(M.lt(1, c.V(g)))
    if c.symbolic:
        (i,) = c.each(x)[0]
        c.ex.add(M.lt(c.At(x, i), 1))
    r = _model(c)._F(x, g)
    for (i,) in c.each(r):
        c.ensure_eq("function F", c.At(r, i), F(c, c.At(x, i), c.V(g)), atol=0 if c.symbolic else 1e-6)


@P.contract(_r + "_sigma_ee_nonrel", rtol=1e-6)
def electrons_low(c):
    gam, eps, col = _energies(c, 1.0, 4.0)
    r = _model(c)._sigma_ee_nonrel(col, eps)
    _check(c, gam, eps, r, nonrelativistic, "cm2/erg", mec2(c, "erg"))


def electrons(c, g, e):
    """Nonrelativistic up to a total energy of 2 MeV"""
    M = c.M
    return M.ite(M.le(g, 2 * c.scale("MeV") / mec2(c, "J")), lambda: nonrelativistic(c, g, e), lambda: relativistic(c, g, e))


@P.contract(_r + "_sigma_ee_rel", rtol=1e-6)
def electrons_high(c):
    gam, eps, col = _energies(c, 1.1, 1e6)
    r = _model(c)._sigma_ee_rel(col, eps)
    _check(c, gam, eps, r, relativistic, "cm2/erg", mec2(c, "erg"))


@P.contract(_r + "_sigma_ee", _r + "_sigma_ee_rel", _r + "_sigma_ee_nonrel", rtol=1e-6)
def electrons_both(c):
    """In each range of electron energies, for photon energies in any unit"""
    n, m = c.size("n", min=1, max=4), c.size("m", min=1, max=4)
    gam = c.array("gam", n, lo=1.0, hi=1e5, pos=True, whole=False, extra=(1.0, 3.9, 4.0, 1e5))
    e = c.qarray("e", "energy", m, lo=1e-3, hi=1e4, ref="MeV", pos=True)
    if c.symbolic:
        col = c.naima.radiative.np.vstack(gam)
    else:
        import numpy as np

        col = np.vstack(gam)
    r = _model(c)._sigma_ee(col, e)
    mc = mec2(c, "eV")
    for i, j in c.each(r):
        g, x = c.At(gam, i), c.At(e, j, "eV") / mc
        _far(c, g, x)
        s = electrons(c, g, x)
        c.ensure_eq("cross section", c.At(r, (i, j), "cm2/eV") * mc, s, atol=0 if c.symbolic else 1e-8 * abs(_r02alpha(c) / x))
        limit = c.M.ite(c.M.lt(2 * c.scale("MeV") / mec2(c, "J"), g), g, (g * g - 1) / 4)
        c.ensure_eq("no photon above the kinematic limit", c.M.ite(c.M.lt(limit, x), c.At(r, (i, j), "cm2/eV"), 0), 0)


@P.contract(_r + "_sigma_ep", rtol=1e-6)
def ions(c):
    gam, eps, col = _energies(c, 1.0, 1e6)
    r = _model(c)._sigma_ep(col, eps)
    _check(c, gam, eps, r, sigma1, "cm2/erg", mec2(c, "erg"))


@P.contract(_r + "_spectrum", _r + "_emiss_ee", _r + "_emiss_ep", _r + "__init__", stubs=(tll_stub, ee_stub), assumes=[TLL, EE], rtol=1e-4, samples=30)
def emission(c):
    """Sum of the two contributions with their weights, which may be zero"""
    M, q = c.M, c.M.q
    pd, g = particles(c)
    per = c.num("nEed", lo=3, hi=40, pos=True, isint=True)
    lo = c.quantity("Eemin", "energy", lo=1, hi=100, ref="GeV")
    hi = c.quantity("Eemax", "energy", lo=1, hi=1e3, ref="TeV")
    c.assume(M.lt(c.V(lo, "eV"), c.V(hi, "eV")))
    n0 = c.quantity("n0", "density", lo=0.1, hi=10, ref="cm-3")
    kind = c.forall("weights", ["default", "given", "no electrons", "no ions", "neither"])
    k = {}
    he = q(0.0959)
    wee, wep = (1 + 2 * he) / (1 + he), (1 + 4 * he) / (1 + he)
    if kind != "default":
        a, b = c.num("weight_ee", lo=1e-3, hi=10, pos=True), c.num("weight_ep", lo=1e-3, hi=10, pos=True)
        k = {"weight_ee": 0.0 if kind in ("no electrons", "neither") else a, "weight_ep": 0.0 if kind in ("no ions", "neither") else b}
        wee = 0 if kind in ("no electrons", "neither") else c.V(a)
        wep = 0 if kind in ("no ions", "neither") else c.V(b)
    m = c.naima.radiative.Bremsstrahlung(pd, n0=n0, nEed=per, Eemin=lo, Eemax=hi, **k)
    e = c.qarray("e", "energy", c.size("n", min=1, max=3), lo=1e-2, hi=0.3, ref="GeV", pos=True)
    L = m.flux(e, distance=0)
    c.ensure_unit("unit of the emission", L, "1/(s eV)")
    mc = mec2(c)
    tev = c.scale("TeV") / c.scale("eV")
    n, x = grid(c, c.V(lo, "eV") / mc, c.V(hi, "eV") / mc, c.V(per))
    for i in c.each(L):
        E = c.At(e, i, "eV")
        eps = E / mc
        if c.symbolic:
            # the cross sections by their contracts, in cm2/eV
            see = lambda gam: c.t.app("sigma_ee", (gam, eps))
            sep = lambda gam: c.t.app("sigma_ep", (gam, eps))
        else:
            see = lambda gam: electrons(c, gam, eps) / mc
            sep = lambda gam: sigma1(c, gam, eps) / mc
        part = lambda s: M.tll(n, x, lambda j: g(x(j) * mc / tev) * mc / tev * s(x(j)))
        v = 0
        if kind not in ("no electrons", "neither"):
            v = v + wee * part(see)
        if kind not in ("no ions", "neither"):
            v = v + wep * part(sep)
        c.ensure_eq("emission", c.At(L, i, "1/(s eV)"), c.V(n0, "cm-3") * c.const("c") * 100 * v)


@P.contract(_r + "_spectrum", _r + "__init__", stubs=(tll_stub, ee_stub), assumes=[TLL, EE], samples=6)
def defaults(c):
    """One ion per cm3, electrons between 100 MeV and 1e9 mec2, 300 points per decade"""
    pd, _ = particles(c)
    m = c.naima.radiative.Bremsstrahlung(pd)
    mc = mec2(c)
    top = c.Q(c.s.num(mc * 10**9) if c.symbolic else mc * 1e9, c.u("eV"))
    m2 = c.naima.radiative.Bremsstrahlung(pd, n0=c.Q(1, c.u("cm-3")), Eemin=c.Q(0.1, c.u("GeV")), Eemax=top, nEed=300)
    e = c.qarray("e", "energy", c.size("n", min=1, max=3), lo=1e-2, hi=0.3, ref="GeV", pos=True)
    L, L2 = m.flux(e, distance=0), m2.flux(e, distance=0)
    for i in c.each(L):
        c.ensure_eq("emission with the default settings", c.At(L, i, "1/(s eV)"), c.At(L2, i, "1/(s eV)"))
