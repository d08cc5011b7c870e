"""P12: gamma rays from pion decay (Kafexhiu et al. 2014)"""
from pyvc.report import Property
from .common import particles, tll_stub, pp_stub, lut_stub, TLL, PP, LUT, grid, _elementwise, _rad

P = Property("P12")
_r = "naima.radiative.PionDecay."
TTH, MPI = 0.27966184, 0.1349766
MODELS = ["Geant4", "Pythia8", "SIBYLL", "QGSJET"]
ETRANS = {"Pythia8": 50, "SIBYLL": 100, "QGSJET": 100, "Geant4": 100}
TAB4 = {
    "Geant4": (0.728, 0.596, 0.491, 0.2503, 0.117),
    "Pythia8": (0.652, 0.0016, 0.488, 0.1928, 0.483),
    "SIBYLL": (5.436, 0.254, 0.072, 0.075, 0.166),
    "QGSJET": (0.908, 0.0009, 6.089, 0.176, 0.448),
}
TAB7 = {
    "low": (9.53, 0.52, 0.054),
    "Geant4": (9.13, 0.35, 9.7e-3),
    "Pythia8": (9.06, 0.3795, 0.01105),
    "SIBYLL": (10.77, 0.412, 0.01264),
    "QGSJET": (13.16, 0.4419, 0.01439),
}
TAB5 = {"20-100": (3.0, 0.5, 4.2, 1.0), "Geant4": (3.0, 0.5, 4.9, 1.0), "Pythia8": (3.5, 0.5, 4.0, 1.0), "SIBYLL": (3.55, 0.5, 3.6, 1.0), "QGSJET": (3.55, 0.5, 4.5, 1.0)}


def mp(c):
    return c.const("m_p") * c.const("c") * c.const("c") / c.scale("GeV")


def sq(x):
    return x * x


# ------------------------------------------------------------ published functions
def sigma_inel(c, T):
    """Eq. 1 [cm2]"""
    q = c.M.q
    L = c.M.log(T / q(TTH))
    w = 1 - c.M.pow(q(TTH) / T, q(1.9))
    return (q(30.7) - q(0.96) * L + q(0.18) * L * L) * w * w * w * q(1e-27)


def sigma_low(c, T):
    """Eqs. 2 to 5: one and two pions"""
    M, q = c.M, c.M.q
    p, pi, R, G = mp(c), q(MPI), q(1.1883), q(0.2264)
    s = 2 * p * (T + 2 * p)
    rs = M.sqrt(s)
    g = M.sqrt(R * R * (R * R + G * G))
    K = M.sqrt(8) * R * G * g / (M.pi * M.sqrt(R * R + g))
    f = p * K / (sq(sq(rs - p) - R * R) + R * R * G * G)
    mu = M.sqrt(sq(s - pi * pi - 4 * p * p) - 16 * pi * pi * p * p) / (2 * pi * rs)
    one = q(7.66e-3) * M.pow(mu, q(1.95)) * (1 + mu + mu * mu * mu * mu * mu) * M.pow(f, q(1.86))
    two = M.ite(M.lt(T, q(0.56)), 0, lambda: q(5.7) / (1 + M.exp(q(-9.3) * (T - q(1.4)))))
    return (one + two) * q(1e-27)


def sigma_mid(c, T, inel):
    """Eq. 6"""
    q = c.M.q
    Q = (T - q(TTH)) / mp(c)
    return inel(T) * (q(-6e-3) + q(0.237) * Q - q(0.023) * Q * Q)


def sigma_high(c, T, a, inel):
    """Eq. 7"""
    M, q = c.M, c.M.q
    x = (T - 3) / mp(c)
    m1 = q(a[0]) * M.pow(x, q(a[3])) * (1 + M.exp(-q(a[1]) * M.pow(x, q(a[4]))))
    return inel(T) * m1 * (1 - M.exp(-q(a[2]) * M.pow(x, q(1, 4))))


def sigma_pi(c, T, model, low=None, mid=None, high=None):
    M = c.M
    inel = lambda T: sigma_inel(c, T)
    low = low or (lambda T: sigma_low(c, T))
    mid = mid or (lambda T: sigma_mid(c, T, inel))
    high = high or (lambda T, a: sigma_high(c, T, a, inel))
    return M.ite(
        M.lt(T, 2),
        lambda: low(T),
        lambda: M.ite(
            M.lt(T, 5),
            lambda: mid(T),
            lambda: M.ite(M.lt(T, ETRANS[model]), lambda: high(T, TAB4["Geant4"]), lambda: high(T, TAB4[model])),
        ),
    )


def pion_max(c, T):
    """Eq. 10: maximum energy of a pion"""
    M, q = c.M, c.M.q
    p, pi = mp(c), q(MPI)
    s = 2 * p * (T + 2 * p)
    E = (s - 4 * p * p + pi * pi) / (2 * M.sqrt(s))
    P_ = M.sqrt(E * E - pi * pi)
    g = (T + 2 * p) / M.sqrt(s)
    return g * (E + P_ * M.sqrt(1 - 1 / (g * g)))


def gamma_max(c, T, pion=None):
    """Maximum energy of a photon"""
    M = c.M
    pi = M.q(MPI)
    g = (pion or (lambda T: pion_max(c, T)))(T) / pi
    return pi / 2 * g * (1 + M.sqrt(1 - 1 / (g * g)))


def amax(c, T, model, pi, pion):
    """Eq. 12, table VII"""
    M, q = c.M, c.M.q

    def high(b):
        L = M.log(T / mp(c))
        return q(b[0]) * M.pow(T / mp(c), -q(b[1])) * M.exp(q(b[2]) * L * L) * pi(T) / mp(c)

    return M.ite(
        M.lt(T, 1),
        lambda: q(5.9) * pi(T) / pion(T),
        lambda: M.ite(
            M.lt(T, 5),
            lambda: high(TAB7["low"]),
            lambda: M.ite(M.lt(T, ETRANS[model]), lambda: high(TAB7["Geant4"]), lambda: high(TAB7[model])),
        ),
    )


def shape(c, T, E, lam, al, be, ga, top):
    """Eq. 11, with X limited to 1"""
    M, q = c.M, c.M.q
    pi = q(MPI)
    Y = lambda E: E + pi * pi / (4 * E)
    ym = Y(top(T))
    X = (Y(E) - pi) / (ym - pi)
    X = M.ite(M.lt(1, X), q(1), X)
    return M.pow(1 - M.pow(X, al), be) / M.pow(1 + X / (lam * pi / ym), ga)


def kappa(c, T):
    q = c.M.q
    return q(3.29) - M_pow32(c, T / mp(c)) / 5


def M_pow32(c, x):
    return c.M.pow(x, c.M.q(-3, 2))


def mu(c, T):
    M, q = c.M, c.M.q
    x = (T - 1) / mp(c)
    return q(5, 4) * M.pow(x, q(5, 4)) * M.exp(-q(5, 4) * x)


def spectral_shape(c, T, E, model, F, ka, m):
    """Table V"""
    M, q = c.M, c.M.q
    row = lambda k: [q(v) for v in TAB5[k]]
    top = lambda: F(T, E, *row(model))
    mid = lambda: F(T, E, *row("20-100"))

    def high():
        if ETRANS[model] < 100:
            return M.ite(M.lt(ETRANS[model], T), top, mid)
        return M.ite(M.lt(100, T), top, mid)

    return M.ite(
        M.lt(T, q(TTH)),
        0,
        lambda: M.ite(
            M.le(T, 1),
            lambda: F(T, E, q(1), q(1), ka(T), q(0)),
            lambda: M.ite(
                M.le(T, 4),
                lambda: F(T, E, q(3), q(1), m(T) + q(2.45), m(T) + q(1.45)),
                lambda: M.ite(M.le(T, 20), lambda: F(T, E, q(3), q(1), q(1.5) * m(T) + q(4.95), m(T) + q(1.5)), high),
            ),
        ),
    )


def enhancement(c, T, inel):
    """Eqs. 21 to 24, limited below 1 GeV"""
    M, q = c.M, c.M.q

    def v():
        f = inel(T) / inel(q(1000))
        G = 1 + M.log(M.ite(M.lt(1, f), f, 1))
        return q(1.37) + q(0.39) * 10 * M.pi * q(1e-27) * G / inel(T)

    return M.ite(M.le(T, q(TTH)), 0, lambda: M.ite(M.lt(T, 1), q(1.9141), v))


# ------------------------------------------------------------ contracts
def _T(c, lo=0.28, hi=1e7, name="T"):
    T = c.array(name, c.size("n", min=1, max=5), lo=lo, hi=hi, pos=True, whole=False, extra=(lo, 0.56, 1.0, 2.0, 4.0, 5.0, 20.0, 50.0, 100.0, 1000.0))
    return T


def _model(c, model=None, **k):
    pd, _ = particles(c)
    if model:
        k["hiEmodel"] = model
    return c.naima.radiative.PionDecay(pd, useLUT=False, **k)


def _each(c, r, T, name, f):
    c.ensure_shape("one value for each proton energy", r, T)
    for (i,) in c.each(r):
        c.ensure_eq(name, c.At(r, i), f(c.At(T, i)))


@P.contract(_r + "_sigma_inel", rtol=1e-6)
def inelastic(c):
    T = _T(c)
    _each(c, _model(c)._sigma_inel(T), T, "inelastic cross section", lambda T: sigma_inel(c, T))


@P.contract(_r + "_sigma_pi_loE", rtol=1e-6)
def pions_low(c):
    T = _T(c, 0.281, 2)
    _each(c, _model(c)._sigma_pi_loE(T), T, "cross section of pion production", lambda T: sigma_low(c, T))


@P.contract(_r + "_sigma_pi_midE", rtol=1e-6)
def pions_mid(c):
    T = _T(c, 2, 5)
    _each(c, _model(c)._sigma_pi_midE(T), T, "cross section of pion production", lambda T: sigma_mid(c, T, lambda T: sigma_inel(c, T)))


@P.contract(_r + "_sigma_pi_hiE", rtol=1e-6)
def pions_high(c):
    T = _T(c, 5, 1e7)
    a = c.forall("row", [TAB4[m] for m in MODELS])
    _each(c, _model(c)._sigma_pi_hiE(T, list(a)), T, "cross section of pion production", lambda T: sigma_high(c, T, a, lambda T: sigma_inel(c, T)))


@P.contract(_r + "_sigma_pi", rtol=1e-6)
def pions(c):
    T = _T(c)
    model = c.forall("model", MODELS)
    _each(c, _model(c, model)._sigma_pi(T), T, "cross section of pion production", lambda T: sigma_pi(c, T, model))


# callees by their contracts, in the contracts of their callers
_stub = lambda name, pos=False: _elementwise(name, (_rad, "PionDecay." + name), name, pos=pos)
inel_stub, pi_stub, pion_stub, top_stub = _stub("_sigma_inel"), _stub("_sigma_pi"), _stub("_calc_EpimaxLAB", True), _stub("_calc_Egmax", True)
kappa_stub, mu_stub, amax_stub, shape_stub, enh_stub = _stub("_kappa"), _stub("_mu"), _stub("_Amax"), _stub("_F"), _stub("_nuclear_factor")
CALLEE = "the functions called (%s) stand for arbitrary functions of their arguments; their values are the other contracts of this property"


def _by(c, name, fn, pos=False):
    """A callee by its contract (proof), by its published formula (run time)"""
    if c.symbolic:
        return lambda *a: c.t.app(name, tuple(a), pos=pos)
    return fn


@P.contract(_r + "_calc_EpimaxLAB", rtol=1e-6)
def pion_energy(c):
    T = _T(c, 0.281)
    _each(c, _model(c)._calc_EpimaxLAB(T), T, "maximum energy of the pion", lambda T: pion_max(c, T))


@P.contract(_r + "_calc_Egmax", stubs=(pion_stub,), assumes=[CALLEE % "_calc_EpimaxLAB"], rtol=1e-6)
def photon_energy(c):
    T = _T(c, 0.281)
    pion = _by(c, "_calc_EpimaxLAB", lambda T: pion_max(c, T), True)
    _each(c, _model(c)._calc_Egmax(T), T, "maximum energy of the photon", lambda T: gamma_max(c, T, pion))


@P.contract(_r + "_Amax", _r + "_b_params", stubs=(pi_stub, pion_stub), assumes=[CALLEE % "_sigma_pi, _calc_EpimaxLAB"], rtol=1e-6)
def peak(c):
    """Peak of the cross section, for each model and range of energies"""
    T = _T(c, 0.281)
    model = c.forall("model", MODELS)
    pi = _by(c, "_sigma_pi", lambda T: sigma_pi(c, T, model))
    pion = _by(c, "_calc_EpimaxLAB", lambda T: pion_max(c, T), True)
    _each(c, _model(c, model)._Amax(T), T, "peak of the cross section", lambda T: amax(c, T, model, pi, pion))


@P.contract(_r + "_F_func", stubs=(top_stub,), assumes=[CALLEE % "_calc_Egmax"], rtol=1e-5)
def shape_function(c):
    """Spectral shape with given parameters, none above the maximum energy"""
    M = c.M
    T = _T(c, 0.3)
    E = c.num("E", lo=1e-3, hi=1e4, pos=True)
    la, al, be, ga = (c.num(k, lo=0.5, hi=4, pos=True) for k in ("lambda", "alpha", "beta", "gamma"))
    top = _by(c, "_calc_Egmax", lambda T: gamma_max(c, T), True)
    r = _model(c)._F_func(T, E, [la, al, be, ga])
    f = lambda T: shape(c, T, c.V(E), c.V(la), c.V(al), c.V(be), c.V(ga), top)
    for (i,) in c.each(r):
        t = c.At(T, i)
        if not c.symbolic:
            y = lambda e: e + MPI ** 2 / (4 * e)
            x = (y(c.V(E)) - MPI) / (y(top(t)) - MPI)
            c.assume(abs(x - 1) > 1e-4 and x > 1e-6)
        c.ensure_eq("spectral shape", c.At(r, i), f(t))


@P.contract(_r + "_kappa", _r + "_mu", rtol=1e-6)
def parameters(c):
    T = _T(c, 0.3)
    m = _model(c)
    _each(c, m._kappa(T), T, "parameter kappa", lambda T: kappa(c, T))
    T = _T(c, 1.001, 20, "T2")
    if c.symbolic:
        (i,) = c.each(T)[0]
        c.ex.add(c.M.lt(1, c.At(T, i)))
    _each(c, m._mu(T), T, "parameter mu", lambda T: mu(c, T))


def _ffunc_stub(pkg):
    from pyvc import sym, terms as t

    def make(original):
        def _F_func(self, Tp, Egamma, modelparams):
            arrs = [sym.as_arr(Tp), sym.as_arr(Egamma)] + [sym.as_arr(x) for x in modelparams]
            axes, maps = sym.bcast(*[a.axes for a in arrs])
            nodes = [a.node for a in arrs]
            return sym.SArr(sym.Node(axes, lambda *i: t.app("_F_func", tuple(sym._num(n.at(m(i))) for n, m in zip(nodes, maps))), "f"))

        return _F_func

    pkg.stubs["_F_func"] = (_rad, "PionDecay._F_func", make)


@P.contract(_r + "_F", stubs=(_ffunc_stub, kappa_stub, mu_stub), assumes=[CALLEE % "_F_func, _kappa, _mu"], rtol=1e-5)
def shapes(c):
    """Spectral shape, for each model and range of energies (table V)"""
    T = _T(c, 0.2)
    E = c.num("E", lo=1e-3, hi=1e4, pos=True)
    model = c.forall("model", MODELS)
    top = lambda T: gamma_max(c, T)
    if c.symbolic:
        F = lambda *a: c.t.app("_F_func", tuple(c.t.const(x) for x in a))
    else:
        F = lambda T, E, *p: shape(c, T, E, *p, top)
    ka = _by(c, "_kappa", lambda T: kappa(c, T))
    m = _by(c, "_mu", lambda T: mu(c, T))
    r = _model(c, model)._F(T, E)
    for (i,) in c.each(r):
        t = c.At(T, i)
        if not c.symbolic and t >= TTH:
            y = lambda e: e + MPI ** 2 / (4 * e)
            x = (y(c.V(E)) - MPI) / (y(top(t)) - MPI)
            c.assume(abs(x - 1) > 1e-4 and x > 1e-6)
        c.ensure_eq("spectral shape", c.At(r, i), spectral_shape(c, t, c.V(E), model, F, ka, m))


@P.contract(_r + "_nuclear_factor", stubs=(inel_stub,), assumes=[CALLEE % "_sigma_inel"], rtol=1e-6)
def nuclei(c):
    T = _T(c, 0.2)
    inel = _by(c, "_sigma_inel", lambda T: sigma_inel(c, T))
    _each(c, _model(c)._nuclear_factor(T), T, "nuclear enhancement", lambda T: enhancement(c, T, inel))


@P.contract(_r + "_diffsigma", stubs=(amax_stub, shape_stub, enh_stub), assumes=[CALLEE % "_Amax, _F, _nuclear_factor"], rtol=1e-5)
def cross_section(c):
    """Differential cross section with and without nuclei, zero below the threshold"""
    M, q = c.M, c.M.q
    m_p = mp(c)
    Ep = c.array("Ep", c.size("n", min=1, max=5), lo=0.5, hi=1e7, pos=True, whole=False, extra=(1.0, 1.2, 2.0))
    E = c.num("E", lo=1e-3, hi=1e4, pos=True)
    model = c.forall("model", MODELS)
    nuc = c.forall("nuclei", [True, False])
    pi = lambda T: sigma_pi(c, T, model)
    top = lambda T: gamma_max(c, T)
    A = _by(c, "_Amax", lambda T: amax(c, T, model, pi, lambda T: pion_max(c, T)))
    F = _by(c, "_F", lambda T, E: spectral_shape(c, T, E, model, lambda T, E, *p: shape(c, T, E, *p, top), lambda T: kappa(c, T), lambda T: mu(c, T)))
    N = _by(c, "_nuclear_factor", lambda T: enhancement(c, T, lambda T: sigma_inel(c, T)))
    r = _model(c, model, nuclear_enhancement=nuc)._diffsigma(Ep, E)
    for (i,) in c.each(r):
        T = c.At(Ep, i) - m_p
        if not c.symbolic and T >= TTH:
            y = lambda e: e + MPI ** 2 / (4 * e)
            x = (y(c.V(E)) - MPI) / (y(top(T)) - MPI)
            c.assume(abs(x - 1) > 1e-4 and x > 1e-6)
        v = M.ite(M.le(T, q(TTH)), 0, lambda: A(T) * F(T, c.V(E)) * (N(T) if nuc else 1))
        c.ensure_eq("cross section", c.At(r, i), v)
        if not c.symbolic:
            c.ensure("cross section is not negative", c.At(r, i) >= 0)


@P.contract(_r + "_spectrum", _r + "__init__", "naima.radiative.BaseProton._Ep", "naima.radiative.BaseProton._J", stubs=(tll_stub, pp_stub), assumes=[TLL, PP], rtol=1e-4, samples=20)
def emission(c):
    """The integral over the protons of the cross section, the velocity c and the density"""
    M = c.M
    pd, g = particles(c)
    per = c.num("nEpd", lo=3, hi=30, pos=True, isint=True)
    lo = c.quantity("Epmin", "energy", lo=1.5, hi=100, ref="GeV")
    hi = c.quantity("Epmax", "energy", lo=1, hi=1e3, ref="TeV")
    c.assume(M.lt(c.V(lo, "eV"), c.V(hi, "eV")))
    nh = c.quantity("nh", "density", lo=0.1, hi=10, ref="cm-3")
    model = c.forall("model", MODELS)
    nuc = c.forall("nuclei", [True, False])
    m = c.naima.radiative.PionDecay(pd, nh=nh, nuclear_enhancement=nuc, useLUT=False, nEpd=per, Epmin=lo, Epmax=hi, hiEmodel=model)
    e = c.qarray("e", "energy", c.size("n", min=1, max=3), lo=1e-1, hi=0.9, ref="GeV", pos=True)
    L = m.flux(e, distance=0)
    c.ensure_unit("unit of the emission", L, "1/(s eV)")
    n, x = grid(c, c.V(lo, "GeV"), c.V(hi, "GeV"), c.V(per))
    tev = c.scale("TeV") / c.scale("GeV")
    for i in c.each(L):
        E = c.At(e, i, "GeV")
        if c.symbolic:
            s = lambda p: c.t.app("diffsigma", (p, E))
        else:
            # the cross section by its contract
            s = lambda p: rv[p]
            import numpy as np

            xs = [x(k) for k in range(int(n))]
            rv = dict(zip(xs, m._diffsigma(np.array(xs), E)))
        v = M.tll(n, x, lambda k: s(x(k)) * g(x(k) / tev) / tev)
        c.ensure_eq("emission", c.At(L, i, "1/(s GeV)"), c.V(nh, "cm-3") * c.const("c") * 100 * v)


@P.contract(_r + "_spectrum", _r + "__init__", stubs=(tll_stub, pp_stub), assumes=[TLL, PP], samples=6)
def defaults(c):
    """One target per cm3, nuclei, Pythia8, protons from the threshold to 10 PeV, 100 points
    per decade"""
    pd, _ = particles(c)
    P_ = c.naima.radiative.PionDecay
    m = P_(pd, useLUT=False)
    lo = mp(c) + c.M.q(TTH) + c.M.q(1e-4)
    m2 = P_(pd, nh=c.Q(1, c.u("cm-3")), nuclear_enhancement=True, useLUT=False, nEpd=100, Epmin=c.Q(c.s.num(lo) if c.symbolic else lo, c.u("GeV")), Epmax=c.Q(10, c.u("PeV")), hiEmodel="Pythia8")
    c.ensure("the table is used by default", c.M.eq(P_(pd).useLUT, True) if not c.symbolic else c.t.boolc(P_(pd).useLUT is True))
    e = c.qarray("e", "energy", c.size("n", min=1, max=3), lo=1e-1, hi=1e3, ref="GeV", pos=True)
    L, L2 = m.flux(e, distance=0), m2.flux(e, distance=0)
    for i in c.each(L):
        c.ensure_eq("emission with the default settings", c.At(L, i, "1/(s eV)"), c.At(L2, i, "1/(s eV)"), rtol=1e-4)


@P.contract(_r + "_spectrum", _r + "_loadLUT", stubs=(tll_stub, pp_stub, lut_stub), assumes=[TLL, PP, LUT], concrete=False)
def tables(c):
    """The table is the one of the model in use now, whatever was used before"""
    pd, g = particles(c)
    P_ = c.naima.radiative.PionDecay
    e = c.qarray("e", "energy", c.size("n", min=1, max=3), lo=1e-1, hi=1e3, ref="GeV", pos=True)
    first = (c.forall("first model", ["Pythia8", "QGSJET"]), c.forall("first nuclei", [True, False]), c.forall("first table", [True, False]))
    then = (c.forall("model", MODELS), c.forall("nuclei", [True, False]), c.forall("table", [True, False]))
    # the files of the tables: all or none of them
    c.pkg.files = files = c.forall("files", ["all", "none"])
    per = 20
    make = lambda k: P_(pd, hiEmodel=k[0], nuclear_enhancement=k[1], useLUT=k[2], nEpd=per)
    m = make(first)
    m.flux(e, distance=0)
    m.hiEmodel, m.nuclear_enhancement, m.useLUT = then
    L = m.flux(e, distance=0)
    lo = mp(c) + c.M.q(TTH) + c.M.q(1e-4)
    n, x = grid(c, lo, c.M.q(10**7), per)
    tev = c.scale("TeV") / c.scale("GeV")
    name = "diffsigma"
    if then[2] and files == "all":
        name = "table PionDecayKafexhiu14_LUT_%s%s.npz" % ("NucEnh_" if then[1] else "", then[0])
    for i in c.each(L):
        E = c.At(e, i, "GeV")
        v = c.M.tll(n, x, lambda k: c.t.app(name, (x(k), E)) * g(x(k) / tev) / tev)
        c.ensure_eq("emission with the table of the model in use", c.At(L, i, "1/(s GeV)"), c.const("c") * 100 * v)


@P.contract("naima.radiative.LookupTable.__call__", _r + "_spectrum", symbolic=False, why="the contents of the table are data", samples=40)
def accuracy(c):
    """With the table and without: the same emission within the accuracy of the table"""
    pd, _ = particles(c, lo=1.5, hi=3.5)
    P_ = c.naima.radiative.PionDecay
    hi = c.real("Epmax", lo=1e-2, hi=10, pos=True)
    a, b = (P_(pd, useLUT=k, nEpd=30, Epmax=hi * c.u("PeV")) for k in (True, False))
    e = c.Q(c.array("e", 3, lo=1e-4, hi=hi * 1e2, pos=True), "TeV")
    L, L2 = a.flux(e, distance=0), b.flux(e, distance=0)
    for i in c.each(L):
        c.ensure_eq("emission with a table", c.At(L, i, "1/(s eV)"), c.At(L2, i, "1/(s eV)"), rtol=0.03)


class _One:
    """A pool of workers that is one worker"""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def map(self, f, args):
        return [f(a) for a in args]


@P.contract(
    "naima.radiative.generate_lut_pp",
    "naima.radiative._calc_lut_pp",
    "naima.radiative.LookupTable.__init__",
    "naima.radiative.LookupTable.__call__",
    stubs=(pp_stub,),
    assumes=["numpy.load gives the arrays of numpy.savez_compressed; multiprocessing.Pool.map applies the function to each (run in one process)", "a lookup table passes through its points (scipy RectBivariateSpline without smoothing)"],
    samples=6,
    rtol=1e-6,
)
def files(c):
    """A table that is written holds the cross section of the model and nuclei it is named after,
    and gives it back at each of its points, in any units"""
    import contextlib, io, os, shutil, tempfile, types

    n, m = c.size("n", min=4, max=6), 4
    Ep = c.Q(c.array("Ep", n, lo=2, hi=1e6, pos=True, sorted=True), c.unit("up", "energy"))
    Eg = c.Q(c.array("Eg", m, lo=1e-2, hi=1e-1, pos=True, sorted=True), c.unit("ug", "energy"))
    model = c.forall("model", MODELS)
    nuc = c.forall("nuclei", [True, False])
    listed = c.forall("models given as a list", [True, False])
    R = c.naima.radiative
    name = "PionDecayKafexhiu14_LUT_" + ("NucEnh_" if nuc else "") + model + ".npz"
    stored = {}
    names = {"Pool": _One}
    if c.symbolic:
        from contracts.common import patched

        np_ = R.np
        names["np"] = type("np", (), {"__getattr__": lambda self, k: getattr(np_, k)})()
        names["np"].savez_compressed = lambda path, **a: stored.update({path: a})
        names["np"].load = lambda path: types.SimpleNamespace(f=types.SimpleNamespace(**stored[path]))
        base, d = "", None
    else:
        from contracts.common import patched

        d = tempfile.mkdtemp()
        base = d + "/"
    try:
        with patched(c, "radiative", **names), contextlib.redirect_stdout(io.StringIO()):
            R.generate_lut_pp(Ep=Ep, Eg=Eg, out_base=base + "PionDecayKafexhiu14_LUT_", hiEmodel=[model] if listed else model, nuclear_enhancement=nuc)
            written = sorted(stored) if c.symbolic else sorted(os.listdir(d))
            c.ensure("the file has the name that is looked for", c.t.boolc(written == [name]) if c.symbolic else written == [name])
            lut = R.LookupTable(base + name)
    finally:
        if d:
            shutil.rmtree(d)
    pd, _ = particles(c)
    pp = R.PionDecay(pd, hiEmodel=model, nuclear_enhancement=nuc)
    for j in range(m):
        y = Eg[j].to("GeV").value
        got, want = lut(Ep.to("GeV").value, y), pp._diffsigma(Ep.to("GeV").value, y)
        for (i,) in c.each(got):
            c.ensure_eq("cross section at a point of the table", c.At(got, i), c.At(want, i), atol=1e-34)
