"""P09: inverse Compton kernels and the emission of one photon field"""
from pyvc.report import Property
from .common import particles, tll_stub, ic_stub, line_stub, TLL, IC, grid, mec2, nonneg_integral

P = Property("P09")
_r = "naima.radiative.InverseCompton."
A1 = (0.857, 0.153, 1.840, 0.254)
A2 = (0.691, 1.330, 1.668, 0.534)
A3 = (0.606, 0.443, 1.481, 0.540, 0.319)
A4 = (0.461, 0.726, 1.457, 0.382, 6.620)


def G(c, x, a):
    """Khangulyan, Aharonian & Kelner 2014, eqs. 20 (four parameters) and 24, 25 (five)"""
    M, q = c.M, c.M.q
    p = M.pi * M.pi / 6
    al, aa, be, b = (q(v) for v in a[:4])
    g = 1 / (aa * M.pow(x, al) / (1 + b * M.pow(x, be)) + 1)
    if len(a) == 4:
        g0 = (p + x) * M.exp(-x)
    else:
        cc = q(a[4])
        g0 = p * (1 + cc * x) / (1 + p * cc * x) * M.exp(-x)
    return g0 * g


def rate(c, gam, t, z, w, mu=None):
    """Rate of emission on a black body (eqs. 11 and 14): t the temperature in mec2, z the
    photon energy over the energy of the electron, w = 1 - z, mu = 1 - cos(theta)"""
    q = c.M.q
    x = z / w / (4 * gam * t if mu is None else 2 * gam * t * mu)
    a, b = (A3, A4) if mu is None else (A1, A2)
    return q(2.6318735743809104e16) * t * t / (gam * gam) * (z * z / (2 * w) * G(c, x, a) + G(c, x, b))


def kernel(c, gam, T, eph, theta=None):
    M = c.M
    t = T * M.q(1.6863699549e-10)
    mu = None if theta is None else 1 - M.cos(theta)
    return M.ite(M.and_(M.lt(eph, gam), M.lt(1, gam)), lambda: rate(c, gam, t, eph / gam, 1 - eph / gam, mu), 0)


def _arrays(c):
    gam = c.array("gam", c.size("n", min=1, max=5), lo=0.9, hi=1e9 if c.symbolic else c.forall("electrons", [1e9, 4.0]), pos=True, extra=(1.0, 2.0))
    eph = c.array("eph", c.size("m", min=1, max=5), lo=1e-5, hi=1e9, pos=True, extra=(1.0, 2.0))
    T = c.num("T", lo=1, hi=1e5, pos=True)
    return gam, eph, T


def _check(c, r, gam, eph, f, tag):
    for i, j in c.each(r):
        g, e = c.At(gam, j), c.At(eph, i)
        v = c.At(r, (i, j))
        if not c.symbolic:
            # cancellation in 1 - z
            c.assume(abs(e / g - 1) > 1e-6)
        c.ensure_eq("rate", v, f(g, e))
        c.ensure_eq("no photon above the energy of the electron", c.M.ite(c.M.le(g, e), v, 0), 0)
        if not c.symbolic:
            c.ensure("rate is not negative", c.M.le(0, v))
    if c.symbolic:
        f = lambda n: c.t.fresh(n, pos=True)
        c.ensure("rate is not negative", c.M.le(0, rate(c, f("g"), f("t"), f("z"), f("w"), f("mu") if tag == "ani" else None)))


@P.contract(_r + "_iso_ic_on_planck", "naima.radiative.G34", rtol=1e-6)
def isotropic(c):
    gam, eph, T = _arrays(c)
    r = c.naima.radiative.InverseCompton._iso_ic_on_planck(gam, T, eph)
    _check(c, r, gam, eph, lambda g, e: kernel(c, g, c.V(T), e), "iso")


@P.contract(_r + "_ani_ic_on_planck", "naima.radiative.G12", rtol=1e-6)
def anisotropic(c):
    gam, eph, T = _arrays(c)
    th = c.num("theta", lo=0.1, hi=12.4)
    if c.symbolic:
        c.assume(c.M.lt(c.M.cos(c.V(th)), 1))
    else:
        c.assume(c.M.cos(c.V(th)) < 0.995)
    r = c.naima.radiative.InverseCompton._ani_ic_on_planck(gam, T, eph, th)
    _check(c, r, gam, eph, lambda g, e: kernel(c, g, c.V(T), e, c.V(th)), "ani")


def line(c, p, g, e):
    """Rate on photons of energy p [mec2] per photon, Jones 1968 (Aharonian & Atoyan 1981);
    all energies in units of mec2"""
    M = c.M
    b, w = 4 * p * g, e / g

    def inside():
        q = w / (b * (1 - w))
        f = 2 * q * M.log(q) + (1 + 2 * q) * (1 - q) + b * q * b * q * (1 - q) / (2 * (1 + b * q))
        step = lambda y: M.ite(M.lt(0, y), 1, lambda: M.ite(M.eq(y, 0), M.q(1, 2), 0))
        return f * step(1 - q) * step(q - 1 / (4 * g * g))

    return M.ite(M.lt(w, 1), inside, 0)


SIGT, CC = 6.652458734983284e-25, 29979245800.0


@P.contract(_r + "_iso_ic_on_monochromatic", "naima.radiative.heaviside", rtol=1e-6)
def monochromatic(c):
    """One photon energy"""
    gam = c.array("gam", c.size("n", min=2, max=5), lo=2, hi=1e9, pos=True)
    eph = c.array("eph", c.size("m", min=2, max=5), lo=1e-5, hi=1e9, pos=True)
    un = c.unit("e.unit", "energy")
    ud = c.unit("u.unit", "energy density")
    p, d = c.real("p", lo=1e-5, hi=1e3, pos=True), c.real("d", lo=1e-2, hi=1e2, pos=True)
    E, U = c.Q(c.array_of([p]), un), c.Q(c.array_of([d]), ud)
    if not c.symbolic:
        import astropy.units as u

        E, U = (E.value * u.eV).to(un), (U.value * u.Unit("eV/cm3")).to(ud)
    r = c.naima.radiative.InverseCompton._iso_ic_on_monochromatic(gam, E, U, eph)
    m = mec2(c, "eV")
    pe = c.At(E, 0, "eV") / m
    de = c.At(U, 0, "eV/cm3") / m
    for i, j in c.each(r):
        g, e = c.At(gam, j), c.At(eph, i)
        if not c.symbolic:
            c.assume(abs(e / g - 1) > 1e-6)
        v = c.At(r, (i, j))
        k = c.M.q(3, 4) * c.M.q(SIGT) * c.M.q(CC) / (g * g)
        c.ensure_eq("rate", v, k * de / (pe * pe) * line(c, pe, g, e), atol=1e-10 * abs(k * de / pe / pe) if not c.symbolic else 0)
        # and none above the energy of the electron, by the definition of the rate
        c.ensure_eq("no photon above the energy of the electron", c.M.ite(c.M.le(1, e / g), line(c, pe, g, e), 0), 0)


@P.contract(_r + "_iso_ic_on_monochromatic", stubs=(tll_stub,), assumes=[TLL], rtol=1e-5)
def table(c):
    """A table of photon densities"""
    gam = c.array("gam", c.size("n", min=2, max=5), lo=2, hi=1e9, pos=True)
    eph = c.array("eph", c.size("m", min=2, max=5), lo=1e-5, hi=1e9, pos=True)
    k = c.size("k", min=2, max=6)
    E = c.Q(c.array("E", k, lo=1e-5, hi=1e3, pos=True, sorted=True), c.u("eV"))
    U = c.qarray("U", "photon density", k, lo=1e-2, hi=1e2, ref="1/(eV cm3)", pos=True)
    r = c.naima.radiative.InverseCompton._iso_ic_on_monochromatic(gam, E, U, eph)
    m = mec2(c, "eV")
    pe = lambda l: c.At(E, l, "eV") / m
    for i, j in c.each(r):
        g, e = c.At(gam, j), c.At(eph, i)
        if not c.symbolic:
            c.assume(abs(e / g - 1) > 1e-6)
            # the integrand must not come out of a cancellation
            c.assume(all(line(c, pe(l), g, e) == 0 or abs(line(c, pe(l), g, e)) > 1e-3 for l in range(k)))
        f = c.M.q(3, 4) * c.M.q(SIGT) * c.M.q(CC) / (g * g)
        v = c.M.tll(c.V(k) if c.symbolic else k, pe, lambda l: line(c, pe(l), g, e) * c.At(U, l, "1/(eV cm3)") * m / pe(l))
        c.ensure_eq("rate", c.At(r, (i, j)), f * v)


def _ic(c, pd, seed):
    n = c.num("nEed", lo=3, hi=30, pos=True, isint=True)
    lo = c.quantity("Eemin", "energy", lo=1e-3, hi=1e-1, ref="TeV")
    hi = c.quantity("Eemax", "energy", lo=1, hi=1e3, ref="TeV")
    c.assume(c.M.lt(c.V(lo, "eV"), c.V(hi, "eV")))
    m = c.naima.radiative.InverseCompton(pd, seed_photon_fields=[seed], nEed=n, Eemin=lo, Eemax=hi)
    return m, c.V(n), c.V(lo, "eV"), c.V(hi, "eV")


def _emission(c, kind):
    pd, g = particles(c)
    T = c.quantity("T", "temperature", lo=1, hi=1e4, ref="K")
    uu = c.quantity("u", "energy density", lo=1e-2, hi=1e2, ref="eV/cm3")
    th = c.quantity("theta", "angle", lo=0.1, hi=12.4, ref="rad")
    if not c.symbolic:
        c.assume(c.M.cos(c.V(th, "rad")) < 0.995)
    seed = ["x", T, uu] + ([th] if kind == "anisotropic" else [])
    m, per, lo, hi = _ic(c, pd, seed)
    e = c.qarray("e", "energy", c.size("n", min=1, max=3), lo=1e-6, hi=1e2, ref="TeV", pos=True)
    L = m.flux(e, distance=0)
    mc = mec2(c)
    tev = c.scale("TeV") / c.scale("eV")
    ar = 4 * c.const("sigma_sb") / c.const("c")
    t = c.V(T, "K")
    uf = c.V(uu, "J/m3") / (ar * t * t * t * t)
    for i in c.each(L):
        eph = c.At(e, i, "eV") / mc
        if c.symbolic:
            # the kernel by its contract: a function that is not negative
            ker = lambda x: c.t.app("ic_ani" if kind == "anisotropic" else "ic_iso", (x, t, eph) + ((c.V(th, "rad"),) if kind == "anisotropic" else ()), nonneg=True)
        else:
            ker = lambda x: kernel(c, x, t, eph, c.V(th, "rad") if kind == "anisotropic" else None)
        y = lambda gam: lambda k: g(gam(k) * mc / tev) * mc / tev * ker(gam(k))
        v = nonneg_integral(c, lo / mc, hi / mc, per, y)
        l = c.At(L, i, "1/(s eV)")
        c.ensure_eq("emission", l, uf * v / mc)
        c.ensure("emission is not negative", c.M.le(0, uf * v / mc))


for _k in ("isotropic", "anisotropic"):

    def _f(c, _k=_k):
        _emission(c, _k)

    P.contract(_r + "_calc_specic", _r + "_spectrum", _r + "__init__", stubs=(tll_stub, ic_stub), assumes=[TLL, IC], rtol=1e-5, samples=25)(_f)
    P.harnesses[-1].name = "emission_" + _k


@P.contract(_r + "_calc_specic", _r + "_spectrum", stubs=(tll_stub, line_stub), assumes=[TLL, IC], rtol=1e-4, samples=25)
def emission_line(c):
    pd, g = particles(c)
    E = c.quantity("E", "energy", lo=1e-3, hi=1e3, ref="eV")
    uu = c.quantity("u", "energy density", lo=1e-2, hi=1e2, ref="eV/cm3")
    m, per, lo, hi = _ic(c, pd, ["x", E, uu])
    e = c.qarray("e", "energy", c.size("n", min=1, max=3), lo=1e-6, hi=1e2, ref="TeV", pos=True)
    L = m.flux(e, distance=0)
    mc = mec2(c)
    tev = c.scale("TeV") / c.scale("eV")
    p, d = c.V(E, "eV") / mc, c.V(uu, "eV/cm3") / mc
    n, gam = grid(c, lo / mc, hi / mc, per)
    for i in c.each(L):
        eph = c.At(e, i, "eV") / mc

        def y(k):
            x = gam(k)
            if c.symbolic:
                return g(x * mc / tev) * mc / tev * c.t.app("ic_line", (x, c.V(E, "eV"), c.V(uu, "eV/cm3"), eph), nonneg=True)
            return g(x * mc / tev) * mc / tev * c.M.q(3, 4) * c.M.q(SIGT) * c.M.q(CC) / (x * x) * d / (p * p) * line(c, p, x, eph)

        if not c.symbolic:
            ys = [y(k) for k in range(int(n))]
            c.assume(max(ys) > 0 and all(v == 0 or line(c, p, gam(k), eph) > 1e-4 for k, v in enumerate(ys)))
        c.ensure_eq("emission", c.At(L, i, "1/(s eV)"), c.M.tll(n, gam, y) / mc)


@P.contract(_r + "__init__", _r + "_spectrum", stubs=(tll_stub, ic_stub), assumes=[TLL, IC], rtol=1e-6, samples=20)
def defaults(c):
    """The microwave background, electrons between 1 GeV and 1e9 mec2, 100 points per decade"""
    pd, _ = particles(c)
    I = c.naima.radiative.InverseCompton
    mc = mec2(c)
    top = c.Q(c.s.num(mc * 10**9) if c.symbolic else mc * 1e9, c.u("eV"))
    m, m2 = I(pd), I(pd, seed_photon_fields=["CMB"], Eemin=c.Q(1, c.u("GeV")), Eemax=top, nEed=100)
    e = c.qarray("e", "energy", c.size("n", min=1, max=3), lo=1e-9, hi=4e2, ref="TeV", pos=True)
    L, L2 = m.flux(e, distance=0), m2.flux(e, distance=0)
    for i in c.each(L):
        c.ensure_eq("emission with the default settings", c.At(L, i, "1/(s eV)"), c.At(L2, i, "1/(s eV)"))
