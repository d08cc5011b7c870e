"""P06: the energy in particles, and setting it"""
from pyvc.report import Property
from .common import particles, tll_stub, TLL

P = Property("P06")
_r = "naima.radiative."

ELECTRON = ["Synchrotron", "InverseCompton", "Bremsstrahlung"]


def _grid(c, lo, hi, per_decade):
    """Number of points of the sampling and the energy of point k"""
    M = c.M
    dec = M.log10(hi / lo)
    n = M.max(10, M.trunc(per_decade * dec))
    return n, lambda k: lo * M.pow(hi / lo, k / (n - 1))


def _electrons(c, cls, pd, **k):
    n = c.num("nEed", lo=3, hi=40, pos=True, isint=True)
    lo = c.quantity("Eemin", "energy", lo=1e-3, hi=1e-1, ref="TeV")
    hi = c.quantity("Eemax", "energy", lo=1, hi=1e3, ref="TeV")
    c.assume(c.M.lt(c.V(lo, "eV"), c.V(hi, "eV")))
    return getattr(c.naima.radiative, cls)(pd, nEed=n, Eemin=lo, Eemax=hi, **k), c.V(lo, "eV"), c.V(hi, "eV"), c.V(n)


def _protons(c, pd, **k):
    n = c.num("nEpd", lo=3, hi=40, pos=True, isint=True)
    lo = c.quantity("Epmin", "energy", lo=1e-3, hi=1e-1, ref="TeV")
    hi = c.quantity("Epmax", "energy", lo=1, hi=1e3, ref="TeV")
    c.assume(c.M.lt(c.V(lo, "eV"), c.V(hi, "eV")))
    return c.naima.radiative.PionDecay(pd, nEpd=n, Epmin=lo, Epmax=hi, **k), c.V(lo, "eV"), c.V(hi, "eV"), c.V(n)


def _make(c, cls, pd):
    return _protons(c, pd) if cls == "PionDecay" else _electrons(c, cls, pd)


def _spec(c, g, lo, hi, nper):
    """Integral of E n(E) from lo to hi, sampled with nper points per decade [eV]"""
    n, E = _grid(c, lo, hi, nper)
    tev = c.scale("TeV") / c.scale("eV")
    return c.M.tll(n, E, lambda k: E(k) * g(E(k) / tev) / tev)


def _budget(c, cls, lo_name, hi_name, prop, compute):
    pd, g = particles(c)
    m, lo, hi, n = _make(c, cls, pd)
    w = getattr(m, prop)
    c.ensure_unit("unit", w, "erg")
    c.ensure_eq("energy in particles", c.V(w, "eV"), _spec(c, g, lo, hi, n))
    f = getattr(m, compute)
    c.ensure_eq("within the limits of the model", c.V(f(), "eV"), c.V(w, "eV"))
    a = c.quantity("a", "energy", lo=1e-3, hi=1e-1, ref="TeV")
    b = c.quantity("b", "energy", lo=1, hi=1e3, ref="TeV")
    va, vb = c.V(a, "eV"), c.V(b, "eV")
    for x, y, k in ((va, vb, {lo_name: a, hi_name: b}), (va, hi, {lo_name: a}), (lo, vb, {hi_name: b})):
        c.ensure_eq("within given limits (%s)" % ",".join(sorted(k)), c.V(f(**k), "eV"), _spec(c, g, x, y, n))


@P.contract(_r + "BaseElectron.We", _r + "BaseElectron.compute_We", _r + "BaseElectron._gam", _r + "BaseElectron._nelec", stubs=(tll_stub,), assumes=[TLL], rtol=1e-6)
def electrons(c):
    _budget(c, c.forall("class", ELECTRON), "Eemin", "Eemax", "We", "compute_We")


@P.contract(_r + "BaseProton.Wp", _r + "BaseProton.compute_Wp", _r + "BaseProton._Ep", _r + "BaseProton._J", stubs=(tll_stub,), assumes=[TLL], rtol=1e-6)
def protons(c):
    _budget(c, "PionDecay", "Epmin", "Epmax", "Wp", "compute_Wp")


@P.contract(_r + "PionDecayKelner06.Wp", rtol=1e-5, samples=10)
def protons_kelner(c):
    """Integral above the threshold of pion production, 1.22 GeV"""
    pd, g = particles(c, lo=2.3, hi=3.5)
    w = c.naima.radiative.PionDecayKelner06(pd).Wp
    c.ensure_unit("unit", w, "erg")
    x0 = c.M.q(1.22e-3)
    opt = {} if c.symbolic else dict(epsrel=1.49e-8, epsabs=0, limit=50)
    c.ensure_eq("energy in protons", c.V(w, "TeV"), c.M.quad(lambda x: x * g(x), x0, c.M.inf, **opt))


class _PD:
    """A particle distribution with a normalisation"""

    def __init__(self, c, f, amp, name):
        self._c, self._f, self._name = c, f, name
        setattr(self, name, amp)

    def __call__(self, e):
        return getattr(self, self._name) * self._f(e.to("TeV").value)


def _set(c, cls, setter, compute, lo_name, hi_name):
    name = c.forall("amplitude_name", ["amplitude", "norm"])
    f = c.fn("shape", pos=True)
    amp = c.quantity("amp", "amplitude", lo=1e30, hi=1e40)
    a0 = c.V(amp, "1/eV")
    pd = _PD(c, f, amp, name)
    m, lo, hi, n = _make(c, cls, pd)
    W = c.quantity("W", "energy", lo=1e40, hi=1e50, ref="erg")
    lim = c.forall("limits", ["none", "both", "lower"])
    k = {}
    if lim != "none":
        k[lo_name] = c.quantity("a", "energy", lo=1e-3, hi=1e-1, ref="TeV")
    if lim == "both":
        k[hi_name] = c.quantity("b", "energy", lo=1, hi=1e3, ref="TeV")
    w0 = getattr(m, compute)(**k)
    kk = dict(k)
    if name != "amplitude":
        kk["amplitude_name"] = name
    getattr(m, setter)(W, **kk)
    w = getattr(m, compute)(**k)
    c.ensure_eq("the energy that was set", c.V(w, "erg"), c.V(W, "erg"))
    c.ensure_unit("unit of the amplitude", getattr(pd, name), "1/eV")
    c.ensure_eq("the normalisation is scaled", c.V(getattr(pd, name), "1/eV") * c.V(w0, "erg"), a0 * c.V(W, "erg"))
    c.ensure_eq("the caller's amplitude is left alone", c.V(amp, "1/eV"), a0)
    # everything else is left alone
    lo2, hi2 = (m.Epmin, m.Epmax) if cls == "PionDecay" else (m.Eemin, m.Eemax)
    c.ensure_eq("lower limit left alone", c.V(lo2, "eV"), lo)
    c.ensure_eq("upper limit left alone", c.V(hi2, "eV"), hi)


@P.contract(_r + "BaseElectron.set_We", _r + "BaseElectron.compute_We", stubs=(tll_stub,), assumes=[TLL])
def set_electrons(c):
    _set(c, c.forall("class", ELECTRON), "set_We", "compute_We", "Eemin", "Eemax")


@P.contract(_r + "BaseProton.set_Wp", _r + "BaseProton.compute_Wp", stubs=(tll_stub,), assumes=[TLL])
def set_protons(c):
    _set(c, "PionDecay", "set_Wp", "compute_Wp", "Epmin", "Epmax")


@P.contract(_r + "BaseElectron.set_We", _r + "BaseProton.set_Wp", "naima.extern.validator.validate_scalar")
def not_an_energy(c):
    """Only an energy can be set"""
    pd, _ = particles(c)
    bad = c.quantity("d", "length", lo=1, hi=10)
    m = c.naima.radiative.Synchrotron(pd)
    c.ensure_raises("set the energy in electrons to a length", TypeError, lambda: m.set_We(bad))
    p = c.naima.radiative.PionDecay(pd)
    c.ensure_raises("set the energy in protons to a length", TypeError, lambda: p.set_Wp(bad))
