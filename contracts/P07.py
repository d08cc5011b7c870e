"""P07: cached results.

A model keeps results in _cache under a key. The contracts are about one step of a history:
a model that has been evaluated with any settings, then changed (or whose results or
arguments were modified by the caller), gives what a fresh model with the new settings gives.
By induction this holds for every history: the entries of a cache are the copies put there
by earlier steps, and an entry is only returned under the key of the step that put it."""
from pyvc.report import Property
from .common import tll_stub, pp_stub, pp_model_stub, lut_stub, LUT, ee_stub, ic_stub, line_stub, kel_sigma, kel_f, TLL, PP, EE, IC, KEL

P = Property("P07")
_r = "naima.radiative."
_m = "naima.model_utils.memoize"
KEYS = "the bytes of an array determine its values; distinct keys have distinct SHA-256 digests; the text of a unit determines the unit"


def _amp(c, name):
    return c.quantity(name, "amplitude", lo=1e30, hi=1e36, ref="1/TeV")


def _energy(c, name, lo, hi, ref="TeV"):
    return c.quantity(name, "energy", lo=lo, hi=hi, ref=ref)


def _num(c, name, lo=1.1, hi=2.9):
    return c.num(name, lo=lo, hi=hi, pos=True)


PL = {"amplitude": _amp, "e_0": lambda c, n: _energy(c, n, 0.1, 10), "alpha": _num}
ECPL = dict(PL, e_cutoff=lambda c, n: _energy(c, n, 1, 100), beta=lambda c, n: _num(c, n, 0.5, 2))
BPL = {
    "amplitude": _amp,
    "e_0": lambda c, n: _energy(c, n, 0.1, 10),
    "e_break": lambda c, n: _energy(c, n, 1, 100),
    "alpha_1": _num,
    "alpha_2": _num,
}
EBPL = dict(BPL, e_cutoff=lambda c, n: _energy(c, n, 1, 100), beta=lambda c, n: _num(c, n, 0.5, 2))
LOGP = dict(PL, beta=lambda c, n: _num(c, n, 0.1, 1))
MODELS = {
    "PowerLaw": PL,
    "ExponentialCutoffPowerLaw": ECPL,
    "BrokenPowerLaw": BPL,
    "ExponentialCutoffBrokenPowerLaw": EBPL,
    "LogParabola": LOGP,
}


def _same(c, name, a, b, unit):
    c.ensure_shape(name + " (shape)", a, b)
    for i in c.each(b):
        c.ensure_eq(name, c.At(a, i, unit), c.At(b, i, unit))


def _particle_model(kind):
    """The particle distributions with their own cache switched on"""
    pars = MODELS[kind]

    @P.contract(_m, "naima.models.%s._calc" % kind, assumes=[KEYS], samples=60)
    def model(c):
        M = getattr(c.naima.models, kind)
        s = {k: f(c, k) for k, f in pars.items()}
        m = M(**s)
        m._memoize = True
        n = c.size("n", min=1, max=4)
        e = c.qarray("e", "energy", n, lo=0.1, hi=100, ref="TeV")
        first = m(e)
        what = c.forall("change", list(pars) + ["energy", "unit of the energy", "class", "result", "argument", "nothing"])
        fresh = M
        if what in pars:
            s[what] = pars[what](c, what + "'")
            setattr(m, what, s[what])
        elif what == "energy":
            e = c.qarray("e'", "energy", n, lo=0.1, hi=100, ref="TeV")
        elif what == "unit of the energy":
            e = c.Q(e.value, c.unit("unit'", "energy"))
        elif what == "result":
            first *= 2
        elif what == "argument":
            e *= 2
        elif what == "class":
            # another class with the same parameters and the cache of its parent
            fresh = type("Double", (M,), {"eval": staticmethod(lambda *a: 2 * M.eval(*a))})
            m = fresh(**s)
            m._memoize = True
        m0 = fresh(**s)
        m0._memoize = False
        second = m(e)
        _same(c, "after a change of the model or of the arguments", second, m0(e), "1/eV")
        second *= 3
        _same(c, "evaluated once more", m(e), m0(e), "1/eV")

    P.harnesses[-1].name = "model_" + kind


for _k in MODELS:
    _particle_model(_k)


# ------------------------------------------------------------------- radiative models
_num30 = lambda c, n: c.num(n, lo=5, hi=25, pos=True, isint=True)
_elec = {"Eemin": lambda c, n: _energy(c, n, 1e-3, 1e-1), "Eemax": lambda c, n: _energy(c, n, 1, 1e3), "nEed": _num30}
_prot = {"Epmin": lambda c, n: _energy(c, n, 2e-3, 1e-1), "Epmax": lambda c, n: _energy(c, n, 1, 1e3), "nEpd": _num30}
_dens = lambda c, n: c.quantity(n, "density", lo=0.1, hi=10, ref="cm-3")


def _thermal(c, n):
    return {
        "isotropic": True,
        "type": "thermal",
        "T": c.quantity(n + ".T", "temperature", lo=1, hi=1e4, ref="K"),
        "u": c.quantity(n + ".u", "energy density", lo=0.1, hi=10, ref="eV/cm3"),
    }


RAD = {
    "Synchrotron": (dict(_elec, B=lambda c, n: c.quantity(n, "B", lo=1, hi=1e3, ref="uG")), {}, "eV", (tll_stub,)),
    "Bremsstrahlung": (dict(_elec, n0=_dens, weight_ee=_num, weight_ep=_num), {}, "GeV", (tll_stub, ee_stub)),
    "PionDecay": (dict(_prot, nh=_dens), {"useLUT": False}, "TeV", (tll_stub, pp_stub)),
    "PionDecayKelner06": ({"nh": _dens, "Etrans": lambda c, n: _energy(c, n, 0.05, 0.5)}, {}, "TeV", (tll_stub, kel_sigma, kel_f)),
    "InverseCompton": (dict(_elec), {"seed_photon_fields": ["CMB"]}, "TeV", (tll_stub, ic_stub)),
}


PD = {"amplitude": _amp, "shape": lambda c, n: c.num(n, lo=1.8, hi=2.6, pos=True)}


def _particles(c):
    """A class of the user with parameters: any function of the energy and of one of them"""

    class Particles:
        param_names = ["amplitude", "shape"]

        def __init__(self, amplitude, shape):
            self.amplitude, self.shape = amplitude, shape

        def __call__(self, e):
            x = e.to("TeV").value
            if c.symbolic:
                s, t = c.s, c.t
                k = s.as_arr(self.shape).scalar()
                v = s.unop(lambda x: t.app("pd", (x, k), pos=True), s.as_arr(x))
            else:
                v = x**-self.shape
            return v * self.amplitude

    return Particles


def _radiative(kind):
    own, fixed, ref, stubs = RAD[kind]
    slow = kind in ("PionDecayKelner06",)

    def setup(c):
        R = getattr(c.naima.radiative, kind)
        s = {k: f(c, k) for k, f in own.items()}
        D = _particles(c)
        p = {k: f(c, "pd." + k) for k, f in PD.items()}
        make = lambda s, p: R(D(**p), **dict(fixed, **s))

        def fresh(s, p):
            # its results are computed and not kept: a cache may be shared by all models of the class
            m = make(s, p)
            m._memoize = False
            return m

        return s, p, make, fresh, D

    def photons(c, name, n):
        return c.qarray(name, "energy", n, lo=1e-3 if slow else 0.1, hi=100, ref=ref)

    @P.contract(_m, _r + kind + "._spectrum", _r + "BaseRadiative.flux", stubs=stubs, assumes=[KEYS, TLL, PP, EE, IC, KEL], samples=16 if slow else 60, thorough=2 if slow else 8)
    def settings(c):
        s, p, make, new, D = setup(c)
        m = make(s, p)
        e = photons(c, "e", c.size("n", min=1, max=3))
        m.flux(e, distance=0)
        what = c.forall("change", ["set " + k for k in own] + ["particles " + k for k in PD] + ["other particles", "function", "nothing"])
        if what.startswith("set "):
            k = what[4:]
            s[k] = own[k](c, k + "'")
            setattr(m, k, s[k])
        elif what.startswith("particles "):
            k = what[10:]
            p[k] = PD[k](c, k + "'")
            setattr(m.particle_distribution, k, p[k])
        elif what == "other particles":
            p = {k: f(c, k + "'") for k, f in PD.items()}
            m.particle_distribution = D(**p)
        fresh = new(s, p)
        if what == "function":
            f = D(**p)
            g = lambda e: 2 * f(e)
            m.particle_distribution = fresh.particle_distribution = g
        want = fresh.flux(e, distance=0)
        if slow and c.forall("another model in between", [False, True]):
            q = {k: f(c, k + "''") for k, f in PD.items()}
            other, other0 = make(s, q), new(s, q)
            _same(c, "flux of another model", other.flux(e, distance=0), other0.flux(e, distance=0), "1/(s eV)")
        _same(c, "flux after a change of the model", m.flux(e, distance=0), want, "1/(s eV)")
        _same(c, "flux evaluated once more", m.flux(e, distance=0), want, "1/(s eV)")

    P.harnesses[-1].name = "settings_" + kind

    @P.contract(_m, _r + kind + "._spectrum", _r + "BaseRadiative.flux", _r + "BaseRadiative.sed", stubs=stubs, assumes=[KEYS, TLL, PP, EE, IC, KEL], samples=10 if slow else 40, thorough=2 if slow else 8)
    def arguments(c):
        s, p, make, new, D = setup(c)
        m, fresh = make(s, p), new(s, p)
        n = c.size("n", min=1, max=3)
        e = photons(c, "e", n)
        d = c.quantity("d", "length", lo=0.1, hi=10, ref="kpc")
        dist = [d, 0, c.quantity("d'", "length", lo=0.1, hi=10, ref="kpc"), None]
        call = lambda m, e, how, k: m.flux(e) if k is None else m.flux(e, k) if how else m.flux(e, distance=k)
        # the flux of all models is that of BaseRadiative, except for InverseCompton
        full = kind in ("InverseCompton", "Bremsstrahlung")
        a = dist[c.forall("distance", [0, 1, 2, 3] if full else [0, 1])]
        first = call(m, e, full and c.forall("positional", [False, True]), a)
        what = c.forall("change", ["energy", "unit of the energy", "distance", "result", "argument", "sed", "dictionary"])
        b = a
        if what == "energy":
            e = photons(c, "e'", n)
        elif what == "unit of the energy":
            e = c.Q(e.value, c.unit("unit'", "energy"))
        elif what == "distance":
            b = dist[c.forall("distance'", [0, 1, 2, 3])]
        elif what == "result":
            first *= 2
        elif what == "argument":
            e *= 2
        elif what == "sed":
            r = m.sed(e) if a is None else m.sed(e, a)
            r *= 3
        un = "1/(s eV)" if b is dist[1] else "1/(cm2 s eV)"
        x = {"energy": e} if what == "dictionary" else e
        how = full and c.forall("positional'", [False, True])
        want = call(fresh, e, False, b)
        got = call(m, x, how, b)
        _same(c, "flux after a change of the arguments", got, want, un)
        got *= 2
        _same(c, "flux evaluated once more", call(m, e, how, b), want, un)

    P.harnesses[-1].name = "arguments_" + kind


for _k in RAD:
    _radiative(_k)


@P.contract(_m, "naima.models.PowerLaw._calc", assumes=[KEYS], samples=30)
def many(c):
    """More evaluations than the cache holds, and two models of a class that share it"""
    M = c.naima.models.PowerLaw
    s = {k: f(c, k) for k, f in PL.items()}
    k = c.forall("parameter", list(PL))
    s2 = dict(s, **{k: PL[k](c, k + "'")})
    m, m2 = M(**s), M(**s2)
    m._memoize = m2._memoize = True
    m0, m02 = M(**s), M(**s2)
    es = [c.qarray("e%d" % j, "energy", c.size("n%d" % j, min=1, max=2), lo=0.1, hi=100, ref="TeV") for j in range(20)]
    for e in es:
        m(e)
    again = c.forall("again", [0, 1, 2, 3, 10, 19])
    _same(c, "another model of the same class", m2(es[again]), m02(es[again]), "1/eV")
    _same(c, "evaluated again after many others", m(es[again]), m0(es[again]), "1/eV")
    _same(c, "the other model again", m2(es[again]), m02(es[again]), "1/eV")


def _array_seed(c, n):
    return {
        "isotropic": True,
        "type": "array",
        "energy": c.Q(c.array_of([c.num(n + ".E%d" % k, lo=10.0 ** (k - 2), hi=10.0 ** (k - 1), pos=True) for k in range(2)]), c.u("eV")),
        "photon_density": c.Q(c.array_of([c.num(n + ".n%d" % k, lo=0.1, hi=10, pos=True) for k in range(2)]), c.u("1/(eV cm3)")),
    }


def table_stub(pkg):
    """Kernel of a table of photon densities: an arbitrary function of its contents"""
    from pyvc import sym, terms as t

    def make(original):
        def mono(electron_energy, seed_energy, seed_edensity, gamma_energy):
            if any(q.val.axes[0].const is None for q in (seed_energy, seed_edensity)):
                raise t.Unsupported("table of photon densities")
            ex = tuple(q.to(un).val.at(t.const(k)) for q, un in ((seed_energy, "eV"), (seed_edensity, "1/(eV cm3)")) for k in range(int(q.val.axes[0].const)))
            gam, eph = sym.as_arr(electron_energy), sym.as_arr(gamma_energy)
            if gam.ndim != 1 or eph.ndim != 1:
                raise t.Unsupported("inverse Compton kernel called with other dimensions")
            fn = lambda i, j: t.app("ic_table", (gam.at(j), eph.at(i)) + ex, nonneg=True)
            return sym.SArr(sym.Node((eph.axes[0], gam.axes[0]), fn, "f"))

        return staticmethod(mono)

    pkg.stubs["table"] = ("naima.radiative", "InverseCompton._iso_ic_on_monochromatic", make)


def _copy(fields):
    return {k: {p: (x.copy() if hasattr(x, "unit") else x) for p, x in f.items()} for k, f in fields.items()}


FIELD = {
    "T": lambda c: c.quantity("T'", "temperature", lo=1, hi=1e4, ref="K"),
    "u": lambda c: c.quantity("u'", "energy density", lo=0.1, hi=10, ref="eV/cm3"),
    "isotropic": lambda c: False,
    "theta": lambda c: c.quantity("theta'", "angle", lo=0.2, hi=3, ref="rad"),
}


@P.contract(_m, _r + "InverseCompton._spectrum", _r + "InverseCompton.flux", _r + "InverseCompton._calc_specic", stubs=(tll_stub, ic_stub, table_stub), assumes=[KEYS, TLL, IC], samples=60)
def fields(c):
    """Changes inside of the description of the photon fields"""
    D = _particles(c)
    p = {k: f(c, "pd." + k) for k, f in PD.items()}
    I = c.naima.radiative.InverseCompton

    def make(f):
        m = I(D(**p), nEed=10)
        m.seed_photon_fields = f
        return m

    b = dict(_thermal(c, "b"), isotropic=False, theta=c.quantity("theta", "angle", lo=0.2, hi=3, ref="rad"))
    f = {"a": _thermal(c, "a"), "b": b, "t": _array_seed(c, "t")}
    m = make(f)
    e = c.qarray("e", "energy", c.size("n", min=2, max=3), lo=1e-6, hi=1e2, ref="TeV")
    before = c.forall("before", ["total", "one field", "other order"])
    if before == "total":
        m.flux(e, distance=0)
    elif before == "one field":
        r = m.flux(e, distance=0, seed="b")
        r *= 2
    else:
        f = m.seed_photon_fields = {k: f[k] for k in ("t", "b", "a")}
        m.flux(e, distance=0)
        f = m.seed_photon_fields = {k: f[k] for k in ("a", "b", "t")}
    what = c.forall("change", ["T", "u", "theta", "number of photons", "energies", "removed", "added", "renamed", "in place", "nothing"])
    if what in ("T", "u"):
        f["a"][what] = FIELD[what](c)
    elif what == "theta":
        f["b"]["theta"] = FIELD["theta"](c)
    elif what == "number of photons":
        f["t"]["photon_density"] = f["t"]["photon_density"] * c.num("k", lo=2, hi=10, pos=True)
    elif what == "energies":
        f["t"]["energy"] *= 2
    elif what == "removed":
        del f["a"]
    elif what == "added":
        f["n"] = _thermal(c, "n")
    elif what == "renamed":
        f = m.seed_photon_fields = {{"a": "b", "b": "a"}.get(k, k): x for k, x in f.items()}
    elif what == "in place":
        f["t"]["photon_density"] *= 3
    fresh = make(_copy(f))
    got = m.flux(e, distance=0)
    _same(c, "flux of all fields", got, fresh.flux(e, distance=0), "1/(s eV)")
    one = m.flux(e, distance=0, seed="b")
    _same(c, "flux of one field", one, make(_copy(f)).flux(e, distance=0, seed="b"), "1/(s eV)")
    one *= 2
    got *= 2
    _same(c, "flux of all fields, again", m.flux(e, distance=0), make(_copy(f)).flux(e, distance=0), "1/(s eV)")


@P.contract(_m, _r + "PionDecay._spectrum", _r + "PionDecay._loadLUT", stubs=(tll_stub, pp_model_stub, lut_stub), assumes=[KEYS, TLL, PP, LUT], samples=30)
def models_of_pions(c):
    """All combinations of hadronic model, enhancement and lookup table, one after the other
    (the proof: from any of them to any other)"""
    pl = c.naima.models.PowerLaw(c.Q(1e33, c.u("1/TeV")), c.Q(1.0, c.u("TeV")), c.real("alpha", lo=1.8, hi=2.6))
    R = c.naima.radiative.PionDecay
    e = c.qarray("e", "energy", 2, lo=1e-2, hi=10, ref="TeV")
    m = R(pl, nEpd=10)
    m._memoize = True
    last = 1 if c.symbolic else 2
    for k in range(last + 1):
        s = {
            "hiEmodel": c.forall("model%d" % k, ["Pythia8", "SIBYLL", "QGSJET", "Geant4"]),
            "nuclear_enhancement": c.forall("nuclear%d" % k, [True, False]),
            "useLUT": c.forall("table%d" % k, [True, False]),
        }
        for a, b in s.items():
            setattr(m, a, b)
        L = m.flux(e, distance=0)
        if c.symbolic and k < last:
            continue
        fresh = R(pl, nEpd=10, **s)
        if c.symbolic:
            fresh._memoize = False
        _same(c, "flux after a change of the model", L, fresh.flux(e, distance=0), "1/(s eV)")
