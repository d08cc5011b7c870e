"""P25: the wrappers for the fitting package return the same model"""
import contextlib
import io
import sys
import types

from pyvc.report import Property
from .common import TLL, tll_stub
from .P03 import _bin

P = Property("P25")
_s = "sherpa_models."
SHERPA = "sherpa is represented by a model that keeps its parameters, parameters that keep their values, and a cache that returns what the function returns"
FLUX = "calls of the flux of a radiative model are checked against its contract (properties P04 and P08 to P13), not its body"


# ---------------------------------------------------------------- sherpa
class Parameter:
    def __init__(self, modelname, name, val, min=None, max=None, hard_min=None, hard_max=None, units="", frozen=False, **k):
        self.modelname, self.name, self.val, self.frozen, self.units = modelname, name, val, frozen, units

    def set(self, val=None, **k):
        if val is not None:
            self.val = val


class ArithmeticModel:
    def __init__(self, name, pars=()):
        self.name, self.pars = name, tuple(pars)

    @property
    def thawedpars(self):
        return [p.val for p in self.pars if not p.frozen]


SH = {
    "sherpa": types.ModuleType("sherpa"),
    "sherpa.models": types.ModuleType("sherpa.models"),
    "sherpa.models.model": types.ModuleType("sherpa.models.model"),
    "sherpa.models.parameter": types.ModuleType("sherpa.models.parameter"),
}
SH["sherpa.models.model"].ArithmeticModel = ArithmeticModel
SH["sherpa.models.model"].modelCacher1d = lambda f: f
SH["sherpa.models.parameter"].Parameter = Parameter
LOG = []


def stub(pkg):
    """The flux of a radiative model is a function of the energy"""
    from pyvc import sym, terms as t, units

    pkg.extra.update(SH)

    def make(original):
        def flux(self, photon_energy, distance=None, seed=None):
            e, b = photon_energy, {"distance": distance, "seed": seed}
            if distance is None:
                b["distance"] = sym.SymQ(1, "kpc")
            LOG.append((self, b))
            nd = e.to("TeV").val.node
            r = sym.SArr(sym.Node(nd.axes, lambda *i: t.app("flux", (nd.at(i),), pos=True), "f"))
            return sym.SymQ._mk(r, units.as_unit("1/(s cm2 eV)"))

        return flux

    pkg.stubs["flux"] = ("naima.radiative", "BaseRadiative.flux", make)
    pkg.stubs["flux of IC"] = ("naima.radiative", "InverseCompton.flux", make)


def wrappers(c):
    if c.symbolic:
        return c.naima.sherpa_models
    try:
        import sherpa.models.model
    except ImportError:
        sys.modules.update(SH)
    import naima.sherpa_models as m

    return m


def same(c, a, b, what, seen=None):
    """Two objects have the same contents"""
    seen = set() if seen is None else seen
    if a is b or id(a) in seen:
        return
    seen.add(id(a))
    s = c.s
    if isinstance(a, s.SymQ) or isinstance(b, s.SymQ):
        c.ensure_is(what + ": a quantity", isinstance(a, s.SymQ) and isinstance(b, s.SymQ))
        c.ensure_is(what + ": dimensions", a.unit.dims == b.unit.dims)
        return same(c, a.to(b.unit).val, b.val, what, seen)
    if isinstance(a, (s.SArr, int, float)) and not isinstance(a, bool):
        x, y = s.as_arr(a), s.as_arr(b)
        c.ensure_is(what + ": shape", len(x.axes) == len(y.axes) and all(p.key == q.key for p, q in zip(x.axes, y.axes)))
        if not x.axes:
            c.ensure_eq(what, c.V(x), c.V(y))
        else:
            for i in c.each(x):
                c.ensure_eq(what, c.At(x, *i), c.At(y, *i))
        return
    if type(a) is not type(b):
        return c.ensure_is("%s: type (%s, %s)" % (what, type(a).__name__, type(b).__name__), False)
    if isinstance(a, dict):
        c.ensure_is(what + ": names", list(a) == list(b))
        for k in a:
            same(c, a[k], b[k], "%s of %s" % (k, what), seen)
    elif isinstance(a, (list, tuple)):
        c.ensure_is(what + ": number", len(a) == len(b))
        for p, q in zip(a, b):
            same(c, p, q, what, seen)
    elif a is None or isinstance(a, (str, bool)):
        c.ensure_is(what, a == b)
    elif hasattr(a, "__dict__") and not callable(getattr(a, "__wrapped__", None)):
        da, db = vars(a), vars(b)
        c.ensure_is(what + ": attributes", set(da) == set(db))
        for k in sorted(da):
            same(c, da[k], db[k], "%s of %s" % (k, what), seen)
    else:
        c.ensure_is(what, a == b)


NAMES = {
    "InverseCompton": ["TFIR", "uFIR", "TNIR", "uNIR"],
    "Synchrotron": ["B"],
    "Bremsstrahlung": ["n0", "weight_ee", "weight_ep"],
    "PionDecay": ["nh"],
}
RANGE = {"index": (1.5, 3.5), "ref": (0.1, 100), "ampl": (1e-3, 1e3), "cutoff": (1e-3, 1e3), "beta": (0.5, 2), "distance": (0.1, 10), "TFIR": (10, 100), "uFIR": (0.1, 2), "TNIR": (1000, 5000), "uNIR": (0.1, 2), "B": (1e-6, 10), "n0": (0.1, 10), "weight_ee": (0.5, 2), "weight_ep": (0.5, 2), "nh": (0.1, 10)}
ENERGY = {"InverseCompton": (1e6, 1e11), "Synchrotron": (1e-3, 10), "Bremsstrahlung": (1e6, 1e11), "PionDecay": (1e6, 1e11)}


def values(c, kind, few, simple=False):
    v = {}
    for n in ["index", "ref", "ampl", "cutoff", "beta", "distance"] + NAMES[kind]:
        lo, hi = RANGE[n]
        v[n] = c.num(n, lo=lo, hi=hi, pos=True)
    cut = simple or c.forall("cut off", [False, True])
    if cut:
        v["cutoff"] = 0.0 if c.concrete else c.s.num(c.t.ZERO)
    if kind == "InverseCompton":
        for n in ("uFIR", "uNIR"):
            # (in bins: both or none, the energies have all four cases)
            if cut if few else not c.forall(n + " present", [False, True]):
                v[n] = 0.0 if c.concrete else c.s.num(c.t.ZERO)
    v["verbose"] = 0 if simple else c.forall("verbose", [0, 1])
    return v


def zero(c, x):
    return not c.symbolic and x == 0 or c.symbolic and c.V(x).const == 0


def expected(c, kind, v):
    """The radiative model for the parameters"""
    u, models = c.u, c.naima.models
    amplitude = v["ampl"] * 1e30 * u("1/eV")
    if zero(c, v["cutoff"]):
        pd = models.PowerLaw(amplitude, v["ref"] * u("TeV"), v["index"])
    else:
        pd = models.ExponentialCutoffPowerLaw(amplitude, v["ref"] * u("TeV"), v["index"], v["cutoff"] * u("TeV"), v["beta"])
    if kind == "InverseCompton":
        seeds = ["CMB"] + [[n, v["T" + n] * u("K"), v["u" + n] * u("eV/cm3")] for n in ("FIR", "NIR") if not zero(c, v["u" + n])]
        return models.InverseCompton(pd, seed_photon_fields=seeds, Eemin=c.Q(1, u("GeV")), Eemax=c.Q(100, u("TeV")), Eed=100)
    if kind == "Synchrotron":
        return models.Synchrotron(pd, B=v["B"] * u("G"))
    if kind == "Bremsstrahlung":
        return models.Bremsstrahlung(pd, n0=v["n0"] * u("1/cm3"), weight_ee=v["weight_ee"], weight_ep=v["weight_ep"])
    return models.PionDecay(pd, nh=v["nh"] * u("1/cm3"))


class Setup:
    def __init__(self, c, kind, binned, simple=False):
        self.c, self.kind, self.binned = c, kind, binned
        self.variant = 0 if simple else c.forall("variant", [0, 1])
        self.w = getattr(wrappers(c), kind)(*[(), ("mymodel",)][self.variant])
        self.v = v = values(c, kind, binned or simple, simple)
        names = {"nH": "nh"}
        pars = {names.get(p.name, p.name): p for p in self.w.pars}
        c.ensure_is("parameters of the wrapper", set(pars) == set(v) and len(self.w.pars) == len(v))
        for n, p in pars.items():
            p.val = v[n]
        lo, hi = ENERGY[kind]
        n = c.size("bins" if binned else "energies", min=2 if not binned else 1, max=3)
        if binned:
            x = c.array("edges", n + 1, lo=lo, hi=hi, pos=True, sorted=True)
            self.lo, self.hi, self.x = x[:-1], x[1:], x
        else:
            x = c.array("energy", n, lo=lo, hi=hi, pos=True, sorted=True)
            self.lo, self.hi, self.x = x, None, x
        self.n = n
        if c.concrete:
            self.f = expected(c, kind, v).flux(self.x * c.u("keV"), distance=v["distance"] * c.u("kpc")).to_value("1/(s cm2 keV)")

    def calc(self, pars=None):
        LOG.clear()
        p = [q.val for q in self.w.pars] if pars is None else pars
        with contextlib.redirect_stdout(io.StringIO()) as out:
            r = self.w.calc(p, self.lo, self.hi) if self.binned and self.variant else self.w.calc(p, self.lo, **({"xhi": self.hi} if self.binned else {}))
        self.printed = out.getvalue()
        return r

    def flux(self, i):
        c = self.c
        if c.concrete:
            return float(self.f[i])
        # the model evaluated at the energy, in TeV, that keV have
        e = c.V(c.Q(c.s.num(c.At(self.x, i)), c.u("keV")).to("TeV").val)
        return c.t.app("flux", (e,), pos=True) * c.scale(c.u("keV")) / c.scale(c.u("eV"))


def _bins(c, r, n):
    """All bins: in the proof the last one and any of the others"""
    if c.concrete:
        return c.each(r)
    last = c.t.add(c.s._t(n), c.t.MINUS1)
    if c.forall("last bin", [True, False]):
        c.ex.used.append(((last,), (c.s._t(n),)))
        for f in c.ex.instantiate((last,), (c.s._t(n),)):
            c.ex.add(f)
        return [(last,)]
    idx = c.each(r)
    c.ex.add(c.t.lt(idx[0][0], last))
    return idx


for _kind in NAMES:
    for _binned in (False, True):

        @P.contract(_s + _kind + ".flux", _s + _kind + ".__init__", _s + "SherpaModelECPL._pdist", _s + "SherpaModelECPL.__init__", _s + "SherpaModel.calc", _s + "_mergex", samples=12, stubs=(stub,), assumes=[SHERPA, FLUX], rtol=1e-6)
        def calc(c, _kind=_kind, _binned=_binned):
            """Flux of the radiative model with the parameters, for energies or in bins"""
            st = Setup(c, _kind, _binned)
            r = st.calc()
            if c.symbolic:
                c.ensure_is("the model is evaluated", len(LOG) == 1)
                for m, b in LOG:
                    same(c, m, expected(c, _kind, st.v), "model")
                    same(c, b["distance"], st.v["distance"] * c.u("kpc"), "distance")
                    c.ensure_is("all of the photon fields", b.get("seed") is None)
            if c.concrete:
                c.ensure_is("printed when asked", bool(st.printed) == bool(st.v["verbose"]))
            if _binned:
                c.ensure_is("numbers", not hasattr(r, "unit"))
                for (i,) in _bins(c, r, st.n):
                    want = _bin(c, st.flux(i), st.flux(i + 1), c.At(st.x, i), c.At(st.x, i + 1))
                    c.ensure_eq("photons of a bin", c.At(r, i), want)
                c.ensure_shape("one number per bin", r, st.lo)
            else:
                for (i,) in c.each(r):
                    c.ensure_eq("photons at an energy", c.At(r, i), st.flux(i) * c.At(st.x, i))
                c.ensure_shape("one number per energy", r, st.lo)

        P.harnesses[-1].name = "%s_%s" % (_kind, "bins" if _binned else "energies")


FREE = {"index", "ampl"}
DEFAULT = {"TFIR": 30, "TNIR": 3000, "cutoff": 0, "beta": 1, "distance": 1, "uFIR": 0, "uNIR": 0, "n0": 1, "nH": 1, "weight_ee": 1.088, "weight_ep": 1.263, "verbose": 0}
PUNITS = {"ref": "TeV", "ampl": "1e30/eV", "cutoff": "TeV", "distance": "kpc", "TFIR": "K", "TNIR": "K", "uFIR": "eV/cm3", "uNIR": "eV/cm3", "B": "G", "n0": "1/cm3", "nH": "1/cm3"}


@P.contract(*[_s + k + ".__init__" for k in NAMES], _s + "SherpaModelECPL.__init__", samples=8, stubs=(stub,), assumes=[SHERPA])
def parameters(c):
    """What a fit starts from: an uncut power law and the default targets at 1 kpc; the index and the amplitude are free"""
    kind = c.forall("model", list(NAMES))
    w = getattr(wrappers(c), kind)("name of the model")
    names = [p.name for p in w.pars]
    c.ensure_is("names", len(set(names)) == len(names) and set(names) == {"index", "ref", "ampl", "cutoff", "beta", "distance", "verbose"} | {"nH" if n == "nh" else n for n in NAMES[kind]})
    c.ensure_is("name of the model", w.name == "name of the model" and all(p.modelname == w.name for p in w.pars))
    for p in w.pars:
        c.ensure_is("%s: free in a fit or not" % p.name, bool(p.frozen) == (p.name not in FREE))
        c.ensure_is("%s: unit" % p.name, (p.units or "") == PUNITS.get(p.name, ""))
        if p.name in DEFAULT:
            c.ensure_eq("%s: default" % p.name, c.V(p.val), c.M.q(DEFAULT[p.name]))


@P.contract(_s + "SherpaModel.guess", samples=20, stubs=(stub, tll_stub), assumes=[SHERPA, FLUX, TLL], rtol=1e-6)
def guess(c):
    """The guessed amplitude is the one for which the model has the total of the data"""
    kind = c.forall("model", list(NAMES))
    st = Setup(c, kind, c.forall("binned", [False, True]), simple=c.symbolic)
    n = st.n
    if st.binned:
        c.assume(c.M.le(2, c.V(n) if c.concrete else c.s._t(n)))
    dep = c.array("data", n, lo=1e-3, hi=1e3, pos=True)
    before = st.v["ampl"]
    first = st.calc()
    if c.concrete:
        c.assume(bool((first > 0).all()))
        dep = dep * first
    with contextlib.redirect_stdout(io.StringIO()):
        st.w.guess(dep, *((st.lo, st.hi) if st.binned else (st.lo,)))
    after = st.w.ampl.val
    x = lambda k: c.At(st.lo, k)
    ln = c.s._t(n) if c.symbolic else n
    obs = c.M.tll(ln, x, lambda k: c.At(dep, k))
    mod = c.M.tll(ln, x, lambda k: c.At(first, k))
    c.ensure_eq("the amplitude", c.V(after), c.V(before) * obs / mod)
    for p in st.w.pars:
        if p.name != "ampl":
            c.ensure_eq("other parameters stay", c.V(p.val), c.V(st.v[{"nH": "nh"}.get(p.name, p.name)]))
    if c.concrete:
        new = st.calc()
        c.ensure_eq("the total of the model", c.M.tll(ln, x, lambda k: c.At(new, k)), obs)
