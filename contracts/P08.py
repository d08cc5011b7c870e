"""P08: synchrotron emission"""
from pyvc.report import Property
from .common import particles, tll_stub, TLL, mec2, nonneg_integral

P = Property("P08")
_r = "naima.radiative."


def _cgs(c):
    """Electron charge [esu], mass [g], c [cm/s], hbar [erg s]"""
    return c.const("e_esu"), c.const("m_e") * 1000, c.const("c") * 100, c.const("hbar") * 10**7


def G(c, x):
    """Aharonian, Kelner & Prosekin 2010, eq. D7: emission of an electron in a field of
    random direction"""
    M = c.M
    cb = M.cbrt(x)
    c2 = cb * cb
    c4 = c2 * c2
    q = M.q
    return (
        q(1.808) * cb / M.sqrt(1 + q(3.4) * c2)
        * (1 + q(2.21) * c2 + q(0.347) * c4) / (1 + q(1.353) * c2 + q(0.217) * c4)
        * M.exp(-x)
    )


def emission(c, E, B, gam):
    """Emission of one electron of Lorentz factor gam [1/(s erg)] at the photon energy E [erg]"""
    e, me, cc, hb = _cgs(c)
    Ec = 3 * e * hb * B * gam * gam / (2 * me * cc)
    k = c.M.sqrt(3) * e * e * e * B / (2 * c.M.pi * me * cc * cc * hb * E)
    return k * G(c, E / Ec)


def _model(c, pd):
    n = c.num("nEed", lo=3, hi=40, pos=True, isint=True)
    lo = c.quantity("Eemin", "energy", lo=1e-3, hi=1e-1, ref="TeV")
    hi = c.quantity("Eemax", "energy", lo=1, hi=1e3, ref="TeV")
    c.assume(c.M.lt(c.V(lo, "eV"), c.V(hi, "eV")))
    B = c.quantity("B", "B", lo=1, hi=1e4, ref="uG")
    m = c.naima.radiative.Synchrotron(pd, B=B, nEed=n, Eemin=lo, Eemax=hi)
    return m, B, c.V(n), c.V(lo, "eV"), c.V(hi, "eV")


def _photons(c, lo=1e-3, hi=1e4):
    return c.qarray("e", "energy", c.size("n", min=1, max=4), lo=lo, hi=hi, ref="eV", pos=True)


@P.contract(_r + "Synchrotron._spectrum", _r + "Synchrotron.__init__", _r + "BaseElectron._gam", _r + "BaseElectron._nelec", stubs=(tll_stub,), assumes=[TLL], rtol=1e-6)
def spectrum(c):
    pd, g = particles(c)
    m, B, per, lo, hi = _model(c, pd)
    e = _photons(c)
    L = m.flux(e, distance=0)
    c.ensure_unit("unit of the emission", L, "1/(s eV)")
    c.ensure_shape("one value for each photon energy", L, e)
    mc = mec2(c)
    b = c.V(B, "T") * 10**4
    tev = c.scale("TeV") / c.scale("eV")
    nel = lambda x: g(x * mc / tev) * mc / tev
    for i in c.each(L):
        E = c.At(e, i, "erg")
        v = nonneg_integral(c, lo / mc, hi / mc, per, lambda gam: lambda k: nel(gam(k)) * emission(c, E, b, gam(k)))
        l = c.At(L, i, "1/(s erg)")
        c.ensure_eq("emission", l, v)
        c.ensure("emission is not negative", c.M.le(0, l))


@P.contract(_r + "Synchrotron._spectrum", stubs=(tll_stub,), assumes=[TLL])
def no_particles(c):
    """Without electrons there is no emission"""
    B = c.quantity("B", "B", lo=1, hi=1e4, ref="uG")
    un = c.unit("pd.unit", "amplitude")
    m = c.naima.radiative.Synchrotron(lambda e: c.Q(e.to("TeV").value * 0, un), B=B)
    L = m.flux(_photons(c), distance=0)
    for i in c.each(L):
        c.ensure_eq("no emission", c.At(L, i, "1/(s eV)"), 0)


@P.contract(_r + "Synchrotron._spectrum", _r + "Synchrotron.__init__", stubs=(tll_stub,), assumes=[TLL], rtol=1e-6)
def defaults(c):
    """Field of 3.24 uG, electrons between 1 GeV and 1e9 mec2, 100 points per decade"""
    pd, g = particles(c)
    given = c.quantity("B", "B", lo=1e-3, hi=1e10, ref="uG")
    k = c.forall("field", ["default", "given"])
    m = c.naima.radiative.Synchrotron(pd, **({} if k == "default" else {"B": given}))
    m2 = c.naima.radiative.Synchrotron(
        pd, B=c.Q(3.24e-6, c.u("G")) if k == "default" else given, Eemin=c.Q(1, c.u("GeV")), Eemax=c.Q(1e9, c.u("eV")) * (c.const("m_e") * c.const("c") * c.const("c") / c.scale("eV") if not c.symbolic else c.s.num(mec2(c))), nEed=100
    )
    e = _photons(c)
    L, L2 = m.flux(e, distance=0), m2.flux(e, distance=0)
    for i in c.each(L):
        c.ensure_eq("emission with the default settings", c.At(L, i, "1/(s eV)"), c.At(L2, i, "1/(s eV)"))


@P.contract(_r + "Synchrotron.__init__", "naima.extern.validator.validate_scalar")
def bad_field(c):
    pd, _ = particles(c)
    bad = c.quantity("d", "energy", lo=1, hi=10)
    c.ensure_raises("field that is not a magnetic field", TypeError, lambda: c.naima.radiative.Synchrotron(pd, B=bad))
