"""P05: the emission is proportional to the particles and to the targets"""
from pyvc.report import Property
from .common import particles, tll_stub, pp_stub, ee_stub, ic_stub, kel_sigma, kel_f, TLL, PP, EE, IC, KEL

P = Property("P05")
_r = "naima.radiative."


def _class(name, make, lo, hi, ref, stubs=(), target=None, content=None, samples=12, n=3, index=0.5):
    def fn(c):
        pd, _ = particles(c, lo=index)
        k = c.num("k", lo=1e-3, hi=1e3, pos=True)
        d = {}
        t0 = target and target(c)
        m = make(c, pd, t0)
        m2 = make(c, lambda e: pd(e) * k, t0)
        e = c.qarray("e", "energy", c.size("n", min=1, max=n), lo=lo, hi=hi, ref=ref, pos=True)
        f, f2 = m.flux(e, distance=0), m2.flux(e, distance=0)
        K = c.V(k)
        f3 = None
        if target:
            q = c.num("q", lo=1e-3, hi=1e3, pos=True)
            f3 = make(c, pd, t0 * q).flux(e, distance=0)
        for i in c.each(f):
            v = c.At(f, i, "1/(s eV)")
            c.ensure_eq("proportional to the particles", c.At(f2, i, "1/(s eV)"), K * v)
            if target:
                c.ensure_eq("proportional to the targets", c.At(f3, i, "1/(s eV)"), c.V(q) * v)
        if content:
            w, w2 = getattr(m, content), getattr(m2, content)
            c.ensure_unit("unit of the energy in particles", w, "erg")
            c.ensure_eq("energy in particles", c.V(w2, "erg"), K * c.V(w, "erg"))
            if target:
                c.ensure_eq(
                    "energy in particles does not depend on the targets",
                    c.V(getattr(make(c, pd, t0 * q), content), "erg"),
                    c.V(w, "erg"),
                )

    fn.__name__ = name
    P.contract(
        _r + name + "._spectrum", _r + name + ".__init__", _r + "BaseRadiative.flux", stubs=stubs, assumes=[TLL, PP, EE, IC, KEL], samples=samples
    )(fn)


_n = lambda c: c.quantity("target", "density", lo=0.1, hi=10, ref="cm-3")
_class("Synchrotron", lambda c, pd, x: c.naima.radiative.Synchrotron(pd, nEed=10), 1e-3, 1e3, "eV", (tll_stub,), content="We")
_class("Bremsstrahlung", lambda c, pd, x: c.naima.radiative.Bremsstrahlung(pd, n0=x, nEed=10), 1e-3, 1e3, "GeV", (tll_stub, ee_stub), _n, "We")
_class("PionDecay", lambda c, pd, x: c.naima.radiative.PionDecay(pd, nh=x, nEpd=10, useLUT=False), 1e-3, 1e3, "TeV", (tll_stub, pp_stub), _n, "Wp")
_class("PionDecayKelner06", lambda c, pd, x: c.naima.radiative.PionDecayKelner06(pd, nh=x), 1e-2, 1e3, "TeV", (tll_stub, kel_sigma, kel_f), _n, None, samples=2, index=1.7)


def _seed(kind):
    def make(c, pd, x):
        u = c.u
        if kind == "thermal":
            s = ["s", c.Q(30, u("K")), x]
        elif kind == "anisotropic":
            s = ["s", c.Q(30, u("K")), x, c.Q(100, u("deg"))]
        elif kind == "line":
            s = ["s", c.Q(1, u("eV")), x]
        else:
            s = ["s", c.Q(c.array_of([0.1, 1.0, 3.0]), u("eV")), x]
        return c.naima.radiative.InverseCompton(pd, seed_photon_fields=[s], nEed=10)

    return make


_u = lambda c: c.quantity("target", "energy density", lo=0.1, hi=10, ref="eV/cm3")
_ph = lambda c: c.Q(c.array_of([1.0, 0.7, 0.1]), c.unit("target.unit", "photon density"))
for kind, tg in (("thermal", _u), ("anisotropic", _u), ("line", _u), ("array", _ph)):
    _class("InverseCompton", _seed(kind), 1e-3, 1e2, "TeV", (tll_stub, ic_stub), tg, "We")
    P.harnesses[-1].name = "InverseCompton_" + kind
