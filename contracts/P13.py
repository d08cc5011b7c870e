"""P13: pion decay in the parametrisation of Kelner, Aharonian and Bugayov (2006)"""
from pyvc.report import Property
from .common import particles, kel_sigma, kel_f, KEL

P = Property("P13")
_r = "naima.radiative.PionDecayKelner06."
QUAD = "scipy.integrate.quad returns the integral (its own error, requested as 0.1 %, is not modelled)"
LOW = {"epsrel": 1e-6, "limit": 200}


# ------------------------------------------------------------ published functions
def sigma(c, E):
    """Eqs. 73 and 79 [cm2], E in TeV"""
    M, q = c.M, c.M.q
    L = M.log(E)
    s = q(34.3) + q(1.88) * L + q(0.25) * L * L
    r = q(1.22e-3) / E
    w = 1 - r * r * r * r
    return q(1e-27) * s * M.ite(M.le(E, q(0.1)), lambda: M.ite(M.le(E, q(1.22e-3)), 0, lambda: w * w), lambda: q(1))


def parameters(c, E):
    """Eqs. 59 to 61"""
    M, q = c.M, c.M.q
    L = M.log(E)
    return (
        q(1.30) + q(0.14) * L + q(0.011) * L * L,
        1 / (q(1.79) + q(0.11) * L + q(0.008) * L * L),
        1 / (q(0.801) + q(0.049) * L + q(0.014) * L * L),
    )


def fgamma(c, x, E):
    """Eq. 58"""
    M = c.M
    B, b, k = parameters(c, E)
    xb = M.pow(x, b)
    d = 1 + k * xb * (1 - xb)
    f = (1 - xb) / d
    lx = M.log(x)
    return B * lx / x * f * f * f * f * (1 / lx - 4 * b * xb / (1 - xb) - 4 * k * b * xb * (1 - 2 * xb) / d)


# ------------------------------------------------------------ contracts
def _model(c, **k):
    pd, g = particles(c, lo=1.7, hi=2.6)
    return c.naima.radiative.PionDecayKelner06(pd, **k), g


def _sg(c):
    return (lambda E: c.t.app("kel_sigma", (c.M.c(E),))) if c.symbolic else (lambda E: sigma(c, E))


def _fg(c):
    return (lambda x, E: c.t.app("kel_f", (c.M.c(x), c.M.c(E)))) if c.symbolic else (lambda x, E: fgamma(c, x, E))


@P.contract(_r + "_sigma_inel", samples=300)
def cross_section(c):
    m, _ = _model(c)
    E = c.num("E", lo=1e-4, hi=1e6, pos=True, extra=(0.1, 1.22e-3, 1.3e-3, 0.05))
    s = c.V(m._sigma_inel(E))
    v = c.V(E)
    c.ensure_eq("inelastic cross section", s, sigma(c, v))
    L = c.M.log(v)
    # 34.3 + 1.88 L + 0.25 L^2 as a sum of squares
    c.lemma("the polynomial is positive", c.M.lt(0, c.M.q(34.3) + c.M.q(1.88) * L + c.M.q(0.25) * L * L))
    c.ensure("never negative", c.M.le(0, s))
    if not c.symbolic and v <= 1.22e-3:
        c.ensure_eq("no interaction below the threshold", s, 0.0)


@P.contract(_r + "_sigma_inel")
def below_threshold(c):
    m, _ = _model(c)
    E = c.num("E", lo=1e-4, hi=1.22e-3, pos=True)
    c.assume(c.M.le(c.V(E), c.M.q(1.22e-3)))
    c.ensure_eq("no interaction below the threshold", c.V(m._sigma_inel(E)), c.M.q(0))


@P.contract(_r + "_Fgamma", samples=300, rtol=1e-6)
def photon_yield(c):
    m, _ = _model(c)
    x = c.num("x", lo=1e-6, hi=0.999, pos=True)
    E = c.num("E", lo=1e-2, hi=1e6, pos=True)
    c.assume(c.M.lt(c.V(x), 1))
    F = c.V(m._Fgamma(x, E))
    c.ensure_eq("number of photons", F, fgamma(c, c.V(x), c.V(E)))


@P.contract(_r + "_photon_integrand", stubs=(kel_sigma, kel_f), assumes=[KEL], samples=200, rtol=1e-6)
def integrand(c):
    m, g = _model(c)
    x = c.num("x", lo=1e-6, hi=0.999, pos=True)
    e = c.num("e", lo=1e-3, hi=1e4, pos=True)
    v, E = c.V(x), c.V(e)
    c.ensure_eq("Eq. 72", c.V(m._photon_integrand(x, e)), _sg(c)(E / v) * g(E / v) * _fg(c)(v, E / v) / v)


def _mp(c):
    return c.const("m_p") * c.const("c") * c.const("c") / c.scale("TeV")


def low_integrand(c, g, z):
    """Eqs. 77, 78: one neutral pion of energy z (without the factor nhat)"""
    q = c.M.q
    K, pi = q(0.17), q(1.349766e-4)
    E = _mp(c) + z / K
    return 100 * c.const("c") / K * _sg(c)(E) * g(E) / c.M.sqrt(z * z - pi * pi)


@P.contract(_r + "_delta_integrand", stubs=(kel_sigma, kel_f), assumes=[KEL], samples=200, rtol=1e-6)
def pion_integrand(c):
    m, g = _model(c)
    m.nhat = c.num("nhat", lo=0.1, hi=10, pos=True)
    z = c.num("z", lo=1.4e-4, hi=1e2, pos=True)
    c.assume(c.M.lt(c.M.q(1.349766e-4), c.V(z)))
    c.ensure_eq("Eq. 77", c.V(m._delta_integrand(z)), c.V(m.nhat) * low_integrand(c, g, c.V(z)))


def high(c, g, E):
    """Eq. 71 at the photon energy E [TeV]"""
    sg, fg = _sg(c), _fg(c)
    return 100 * c.const("c") * c.M.quad(lambda x: sg(E / x) * g(E / x) * fg(x, E / x) / x, c.M.q(0), c.M.q(1), **LOW)


def low(c, g, E):
    """Eq. 78 at the photon energy E [TeV] (for one pion per interaction)"""
    pi = c.M.q(1.349766e-4)
    return 2 * c.M.quad(lambda z: low_integrand(c, g, z), E + pi * pi / (4 * E), c.M.inf, **LOW)


@P.contract(_r + "_calc_specpp_hiE", stubs=(kel_sigma, kel_f), assumes=[KEL, QUAD], rtol=5e-3, samples=12)
def high_energies(c):
    m, g = _model(c)
    e = c.quantity("e", "energy", lo=1e-2, hi=1e3, ref="TeV")
    s = m._calc_specpp_hiE(e)
    c.ensure_unit("unit", s, "1/(s eV)")
    c.ensure_eq("full calculation", c.V(s, "1/(s TeV)"), high(c, g, c.V(e, "TeV")))


@P.contract(_r + "_calc_specpp_loE", stubs=(kel_sigma, kel_f), assumes=[KEL, QUAD], rtol=5e-3, samples=20)
def low_energies(c):
    m, g = _model(c)
    m.nhat = c.num("nhat", lo=0.1, hi=10, pos=True)
    e = c.quantity("e", "energy", lo=2e-6, hi=1e0, ref="TeV")
    s = m._calc_specpp_loE(e)
    c.ensure_unit("unit", s, "1/(s eV)")
    c.ensure_eq("delta approximation", c.V(s, "1/(s TeV)"), c.V(m.nhat) * low(c, g, c.V(e, "TeV")))


def _by(stub_hi, stub_lo):
    """The two calculations stand for arbitrary functions of the energy; the second is
    proportional to nhat"""

    def stub(pkg):
        from pyvc import sym, terms as t, units

        def make(name, pos, factor):
            def mk(original):
                def f(self, Egamma):
                    v = t.app(name, (Egamma.to("TeV").val.scalar(),), pos=pos)
                    if factor:
                        v = t.mul(v, sym.as_arr(self.nhat).scalar())
                    return sym.SymQ(sym.num(v), units.as_unit("1/(s TeV)"))

                return f

            return mk

        pkg.stubs["k_hi"] = ("naima.radiative", "PionDecayKelner06._calc_specpp_hiE", make("k_hi", False, False))
        pkg.stubs["k_lo"] = ("naima.radiative", "PionDecayKelner06._calc_specpp_loE", make("k_lo", True, True))

    return stub


SPLIT = "in the contracts of the whole spectrum, _calc_specpp_hiE stands for an arbitrary function of the energy, _calc_specpp_loE for nhat times a positive one (their values: contracts high_energies and low_energies)"


@P.contract(_r + "_spectrum", _r + "__init__", stubs=(_by(0, 0),), assumes=[SPLIT], rtol=1e-2, samples=10)
def spectrum(c):
    tr = c.quantity("Etrans", "energy", lo=1e-2, hi=1, ref="TeV")
    nh = c.quantity("nh", "density", lo=0.1, hi=10, ref="cm-3")
    m, g = _model(c, nh=nh, Etrans=tr)
    e = c.qarray("e", "energy", c.size("n", min=1, max=3), lo=1e-3, hi=1e2, ref="TeV")
    s = m._spectrum(e)
    c.ensure_unit("unit", s, "1/(s eV)")
    c.ensure_shape("one value for each energy", s, e)
    hi = (lambda E: c.t.app("k_hi", (c.M.c(E),))) if c.symbolic else (lambda E: high(c, g, E))
    lo = (lambda E: c.t.app("k_lo", (c.M.c(E),), pos=True)) if c.symbolic else (lambda E: low(c, g, E))
    T = c.V(tr, "TeV")
    for i in c.each(s):
        E = c.At(e, i, "TeV")
        v = c.M.ite(c.M.le(T, E), lambda: hi(E), lambda: lo(E) * hi(T) / lo(T))
        c.ensure_eq("spectrum", c.At(s, i, "1/(s TeV)"), c.V(nh, "cm-3") * v)


@P.contract(_r + "_spectrum", _r + "flux", stubs=(_by(0, 0),), assumes=[SPLIT], rtol=1e-2, samples=5)
def continuous(c):
    """The two calculations agree at the transition, and an energy alone gives the same"""
    m, g = _model(c)
    e = c.qarray("e", "energy", 1, lo=1e-3, hi=0.09, ref="TeV")
    f = c.qarray("f", "energy", c.size("n", min=1, max=3), lo=1e-3, hi=1e2, ref="TeV")
    a, b = m.flux(e, distance=0), m.flux(f, distance=0)
    for i in c.each(f):
        if not c.symbolic:
            b = m.flux(c.Q(c.array_of([c.At(e, 0, "TeV"), c.At(f, i, "TeV")]), c.u("TeV")), distance=0)
            c.ensure_eq("independent of the other energies", c.At(b, 0, "1/(s TeV)"), c.At(a, 0, "1/(s TeV)"))
            continue
        c.assume(c.M.eq(c.At(f, i, "TeV"), c.At(e, 0, "TeV")))
        c.ensure_eq("independent of the other energies", c.At(b, i, "1/(s TeV)"), c.At(a, 0, "1/(s TeV)"))


@P.contract(_r + "_Fgamma", samples=300)
def not_negative(c):
    """The yield of photons is not negative. With a = x^b and l = -log x, Eq. 58 is
    B/x f^4 (1 + 4 a b l (1 + k (1 - a)^2) / ((1 - a) d)), a product of positive numbers"""
    M, q = c.M, c.M.q
    m, _ = _model(c)
    x = c.num("x", lo=1e-6, hi=0.999, pos=True)
    E = c.num("E", lo=1e-2, hi=1e6, pos=True)
    v = c.V(x)
    c.assume(M.lt(v, 1))
    F = c.V(m._Fgamma(x, E))
    B, b, k = parameters(c, c.V(E))
    L = M.log(c.V(E))
    for name, p in (("B", B), ("1/b", q(1.79) + q(0.11) * L + q(0.008) * L * L), ("1/k", q(0.801) + q(0.049) * L + q(0.014) * L * L)):
        c.lemma("%s is positive" % name, M.lt(0, p))
    l = -M.log(v)
    c.lemma("log x is negative", M.lt(0, l))
    a = M.pow(v, b)
    c.lemma("x^b is below one", M.lt(a, 1))

    def value(B, b, k, a, x, l):
        d = 1 + k * a * (1 - a)
        f = (1 - a) / d
        return B * (-l) / x * f * f * f * f * (-1 / l - 4 * b * a / (1 - a) - 4 * k * b * a * (1 - 2 * a) / d)

    def product(B, b, k, a, x, l):
        d = 1 + k * a * (1 - a)
        f = (1 - a) / d
        return B / x * f * f * f * f * (1 + 4 * a * b * l * (1 + k * (1 - a) * (1 - a)) / ((1 - a) * d))

    def same(*p):
        return M.or_(M.le(1, p[3]), M.eq(value(*p), product(*p)))

    def sign(*p):
        return M.or_(M.le(1, p[3]), M.le(0, product(*p)))

    args = (B, b, k, a, v, l)
    c.instance("the product is not negative", sign, *args)
    if c.symbolic:
        c.instance("Eq. 58 is the product", same, *args)
    if c.symbolic:
        c.ensure_eq("Eq. 58 is the value", F, value(*args))
        c.ensure("the value is the product", M.eq(value(*args), product(*args)))
        c.ensure("the product is never negative", M.le(0, product(*args)))
    else:
        c.ensure("never negative", F >= 0)


@P.contract(_r + "__init__", _r + "flux")
def refuses(c):
    pd, _ = particles(c)
    K = c.naima.radiative.PionDecayKelner06
    bad = c.quantity("bad", "length", lo=1, hi=10)
    e = c.quantity("e", "energy", lo=1, hi=10)
    c.ensure_raises("a density that is none", TypeError, lambda: K(pd, nh=bad))
    c.ensure_raises("a transition energy that is none", TypeError, lambda: K(pd, Etrans=bad))
    c.ensure_raises("a negative transition energy", ValueError, lambda: K(pd, Etrans=-1 * e))
    c.ensure_raises("energies that are none", TypeError, lambda: K(pd).flux(bad))


@P.contract(_r + "__init__", _r + "flux", stubs=(_by(0, 0),), assumes=[SPLIT], rtol=1e-2, samples=6)
def defaults(c):
    """One target per cm3, and the transition at 0.1 TeV"""
    pd, _ = particles(c)
    K = c.naima.radiative.PionDecayKelner06
    e = c.qarray("e", "energy", c.size("n", min=1, max=3), lo=1e-3, hi=1e1, ref="TeV", pos=True)
    L, L2 = K(pd).flux(e, distance=0), K(pd, nh=c.Q(1, c.u("cm-3")), Etrans=c.Q(0.1, c.u("TeV"))).flux(e, distance=0)
    for i in c.each(L):
        c.ensure_eq("emission with the default settings", c.At(L, i, "1/(s eV)"), c.At(L2, i, "1/(s eV)"))
