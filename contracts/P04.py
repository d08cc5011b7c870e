"""P04: flux, SED and distance"""
from pyvc.report import Property
from .common import particles, tll_stub, pp_stub, ee_stub, ic_stub, kel_sigma, kel_f, TLL, PP, EE, IC, KEL

P = Property("P04")
_r = "naima.radiative."


def _photons(c, lo=1e-3, hi=1e3, ref="TeV", name="e", max=5):
    return c.qarray(name, "energy", c.size("n", min=1, max=max), lo=lo, hi=hi, ref=ref, pos=True)


def _laws(c, m, e, cls="", tag="", f0=None, dist=None, **k):
    """m.flux(e, 0) is the luminosity; every other result follows from it"""
    d = dist if dist is not None else c.quantity("d", "length", lo=1e-9, hi=1e7, ref="kpc", pos=True)
    d0 = c.forall("zero", [0, "quantity"])
    zero = 0 if d0 == 0 else c.Q(0 if c.symbolic else 0.0, c.u("kpc"))
    L = m.flux(e, distance=0, **k)
    L2 = m.flux(e, distance=zero, **k)
    F = m.flux(e, distance=d, **k)
    Fd = m.flux(e, **k)
    SL = m.sed(e, distance=zero, **k)
    S = m.sed(e, distance=d, **k)
    Sd = m.sed(e, **k)
    kind = c.forall("energies in", ["dict", "table", "plain table"])
    t = {"energy": e} if kind == "dict" else c.table({"energy": e}, plain=kind == "plain table")
    Ft = m.flux(t, distance=d, **k)
    St = m.sed(t, distance=d, **k)
    c.ensure_unit("unit of the differential luminosity", L, "1/(s eV)")
    c.ensure_unit("unit of the differential flux", F, "1/(s cm2 eV)")
    c.ensure_unit("unit of the default flux", Fd, "1/(s cm2 eV)")
    c.ensure_unit("unit of the SED", S, "erg/(s cm2)")
    c.ensure_unit("unit of the luminosity", SL, "erg/s")
    dist = c.V(d, "cm")
    kpc = c.scale("kpc") / c.scale("cm")
    area = lambda x: 4 * c.M.pi * x * x
    for i in c.each(L):
        l = c.At(L, i, "1/(s eV)")
        E = c.At(e, i, "eV")
        erg = c.scale("eV") / c.scale("erg")
        if f0 is not None:
            c.ensure_eq("luminosity", l, f0(c.At(e, i, "TeV")))
        c.ensure_eq("both ways to give no distance", c.At(L2, i, "1/(s eV)"), l)
        c.ensure_eq("flux at a distance", c.At(F, i, "1/(s cm2 eV)") * area(dist), l)
        c.ensure_eq("flux at the default distance", c.At(Fd, i, "1/(s cm2 eV)") * area(kpc), l)
        c.ensure_eq("SED at a distance", c.At(S, i, "erg/(s cm2)") * area(dist), E * E * l * erg)
        c.ensure_eq("flux at the energies of a table", c.At(Ft, i, "1/(s cm2 eV)") * area(dist), l)
        c.ensure_eq("SED at the energies of a table", c.At(St, i, "erg/(s cm2)") * area(dist), E * E * l * erg)
        c.ensure_eq("SED at the default distance", c.At(Sd, i, "erg/(s cm2)") * area(kpc), E * E * l * erg)
        c.ensure_eq("SED without a distance", c.At(SL, i, "erg/s"), E * E * l * erg)


@P.contract(_r + "BaseRadiative.flux", _r + "BaseRadiative.sed", _r + "_validate_ene", _r + "BaseRadiative.__init__", "naima.extern.validator.validate_scalar")
def any_model(c):
    """For any emission model: the spectrum is an arbitrary function"""
    pd, _ = particles(c)
    spec = c.fn("spec", pos=True)
    un = c.unit("lum", "differential power")

    class Model(c.naima.radiative.BaseRadiative):
        def _spectrum(self, e):
            return c.Q(spec(c.naima.radiative._validate_ene(e).to("TeV").value), un)

    e = _photons(c)
    _laws(c, Model(pd), e, f0=lambda E: spec(E) * c.scale(un) / c.scale("1/(s eV)"))


def _class(name, make, lo, hi, ref, stubs=(tll_stub,), samples=12, index=0.5, **k):
    def fn(c):
        pd, _ = particles(c, lo=index)
        m = make(c, pd)
        e = _photons(c, lo, hi, ref)
        _laws(c, m, e)

    fn.__name__ = name
    P.contract(_r + name + "._spectrum", _r + name + ".__init__", _r + "BaseRadiative.flux", _r + "BaseRadiative.sed", stubs=stubs, assumes=[TLL, PP, EE, IC, KEL], samples=samples, **k)(fn)


_class("Synchrotron", lambda c, pd: c.naima.radiative.Synchrotron(pd, B=c.quantity("B", "B", lo=1, hi=1000, ref="uG"), nEed=10), 1e-3, 1e3, "eV")
_class("InverseCompton", lambda c, pd: c.naima.radiative.InverseCompton(pd, seed_photon_fields=["CMB", "FIR"], nEed=10), 1e-3, 1e3, "TeV", stubs=(tll_stub, ic_stub))
_class("Bremsstrahlung", lambda c, pd: c.naima.radiative.Bremsstrahlung(pd, n0=c.quantity("n0", "density", lo=0.1, hi=10, ref="cm-3"), nEed=10), 1e-3, 1e3, "GeV", stubs=(tll_stub, ee_stub))
_class("PionDecay", lambda c, pd: c.naima.radiative.PionDecay(pd, nh=c.quantity("nh", "density", lo=0.1, hi=10, ref="cm-3"), nEpd=10, useLUT=False), 1e-3, 1e3, "TeV", stubs=(tll_stub, pp_stub))
_class("PionDecayKelner06", lambda c, pd: c.naima.radiative.PionDecayKelner06(pd, nh=c.quantity("nh", "density", lo=0.1, hi=10, ref="cm-3")), 1e-2, 1e3, "TeV", samples=2, index=1.7, stubs=(tll_stub, kel_sigma, kel_f))


def _wrong(c, what):
    """What is not an energy (or, for a distance, not a length)"""
    bad = c.quantity("wrong", what, lo=1, hi=10)
    if c.forall("asked for one number or for many", [0, 1]):
        bad = c.qarray("wrongs", what, 3, lo=1, hi=10)
    return bad


def _refused(name, make, flux=True, stubs=(tll_stub,), samples=4):
    def fn(c):
        """Energies that are not energies and distances that are not lengths are refused, never read as something else"""
        pd, _ = particles(c)
        m = make(c, pd)
        kind = c.forall("what is asked for", ["length", "density", "number", "time"])
        if kind == "number":
            bad = c.num("number", lo=1, hi=10)
        else:
            bad = _wrong(c, kind)
        if flux:
            c.ensure_raises("flux at what is not an energy", Exception, lambda: m.flux(bad, distance=0))
        c.ensure_raises("SED at what is not an energy", Exception, lambda: m.sed(bad, distance=0))
        e = _photons(c, max=2)
        far = c.quantity("far", c.forall("instead of a length", ["energy", "time", "density"]), lo=1, hi=10)
        if c.forall("a distance without a unit", [0, 1]):
            far = c.num("plain", lo=1, hi=10, pos=True)
        c.ensure_raises("flux at a distance that is not a length", Exception, lambda: m.flux(e, distance=far))
        c.ensure_raises("SED at a distance that is not a length", Exception, lambda: m.sed(e, distance=far))

    fn.__name__ = "refused_" + name
    P.contract(_r + "BaseRadiative.flux", _r + "BaseRadiative.sed", _r + "_validate_ene", "naima.extern.validator.validate_scalar", "naima.extern.validator.validate_physical_type", stubs=stubs, assumes=[TLL, PP, EE, IC, KEL], samples=samples)(fn)


_refused("any", lambda c, pd: type("Model", (c.naima.radiative.BaseRadiative,), {"_spectrum": lambda self, e: c.Q(1.0, c.u("1/(s eV)")) * e.to("TeV").value})(pd), flux=False, stubs=(), samples=20)
_refused("Synchrotron", lambda c, pd: c.naima.radiative.Synchrotron(pd, B=c.quantity("B", "B", lo=1, hi=1000, ref="uG"), nEed=10))
_refused("InverseCompton", lambda c, pd: c.naima.radiative.InverseCompton(pd, seed_photon_fields=["CMB"], nEed=10), stubs=(tll_stub, ic_stub))
_refused("Bremsstrahlung", lambda c, pd: c.naima.radiative.Bremsstrahlung(pd, n0=c.quantity("n0", "density", lo=0.1, hi=10, ref="cm-3"), nEed=10), stubs=(tll_stub, ee_stub))
_refused("PionDecay", lambda c, pd: c.naima.radiative.PionDecay(pd, nh=c.quantity("nh", "density", lo=0.1, hi=10, ref="cm-3"), nEpd=10, useLUT=False), stubs=(tll_stub, pp_stub))
_refused("PionDecayKelner06", lambda c, pd: c.naima.radiative.PionDecayKelner06(pd, nh=c.quantity("nh", "density", lo=0.1, hi=10, ref="cm-3")), stubs=(tll_stub, kel_sigma, kel_f), samples=1)


@P.contract(
    _r + "BaseRadiative.__init__",
    _r + "BaseElectron.__init__",
    _r + "BaseProton.__init__",
    *[_r + n + ".__init__" for n in ("Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay", "PionDecayKelner06")],
    "naima.extern.validator.validate_physical_type",
    samples=60,
)
def particles_refused(c):
    """A particle distribution that is no number of particles per energy is refused by every process;
    one that is accepted is kept as it is"""
    R = c.naima.radiative
    cls = c.forall("process", ["Synchrotron", "InverseCompton", "Bremsstrahlung", "PionDecay", "PionDecayKelner06"])
    args = dict(seed_photon_fields=["CMB"]) if cls == "InverseCompton" else dict(useLUT=False) if cls == "PionDecay" else {}
    kind = c.forall("amplitude", ["amplitude", "length", "energy", "density", "number"])
    a = c.num("plain", lo=1, hi=10, pos=True) if kind == "number" else c.quantity("norm", kind, lo=1, hi=10, pos=True)
    law = c.forall("as", ["power law", "function"])
    if law == "power law":
        pd = c.naima.models.PowerLaw(a, c.quantity("e_0", "energy", lo=0.1, hi=10, ref="TeV"), c.num("alpha", lo=1, hi=3))
    else:
        f = c.fn("shape", pos=True)
        one = c.Q(1.0, c.u("TeV"))
        pd = lambda e: a * f((e / one).to("").value)
    if kind != "amplitude":
        # (the earlier parametrisation of pion decay looks at them when it is evaluated)
        c.ensure_raises(
            "particles that are no number per energy",
            Exception,
            lambda: getattr(R, cls)(pd, **args).flux(c.qarray("e", "energy", 1, lo=1, hi=10, ref="TeV", pos=True)) if cls == "PionDecayKelner06" else getattr(R, cls)(pd, **args),
        )
        return
    m = getattr(R, cls)(pd, **args)
    c.ensure("the particles are those that were given", m.particle_distribution is pd)
