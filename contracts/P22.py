"""P22: estimate of the magnetic field"""
from pyvc.report import Property
from .common import TLL, tll_stub
from .P15 import DIFF, FORMS, T

P = Property("P22")
_f = "naima.utils.estimate_B"
SED = {"differential flux": "energy flux", "energy flux": "differential flux", "differential power": "power", "power": "differential power"}


def _tables(c, cols=False):
    f1 = c.forall("form of the X-rays", list(FORMS))
    f2 = c.forall("form of the gamma rays", [f1, SED[f1]])
    k = dict(plain=c.forall("plain", [False, True])) if cols else {}
    ul = "bool" if cols else None
    return T(c, form=f1, bins="half width", nr="x", n=c.size("nx", min=2, max=6), ul=ul, **k), T(c, form=f2, err="two", bins="edges", nr="g", n=c.size("ng", min=2, max=6), ul=ul, **k)


def _power(c, x):
    """The energy-weighted integral of the differential form over the points in order of energy"""
    p = c.order(x.energy)
    n = c.V(x.n) if c.symbolic else x.n
    E = lambda k: c.At(x.energy, p[k], "TeV")
    # in 1 / (cm2 s TeV) or 1 / (s TeV)
    return c.M.tll(n, E, lambda k: x.to(DIFF[x.form], x.flux(p[k]), p[k]) * E(k))


def _field(c, x, g, uph):
    return c.M.sqrt(_power(c, x) / _power(c, g) * 8 * c.M.pi * uph)


@P.contract(_f, samples=300, stubs=(tll_stub,), assumes=(TLL,), rtol=1e-6)
def field(c):
    """For every photon energy density in any unit"""
    x, g = _tables(c)
    uph = c.quantity("uph", "energy density", lo=0.01, hi=10, ref="eV/cm3")
    B = c.naima.estimate_B(x.table, g.table, photon_energy_density=uph)
    c.ensure_unit("unit", B, "uG")
    c.ensure_eq("field", c.V(B, "uG"), _field(c, x, g, c.V(uph, "erg/cm3")) * 10**6)


@P.contract(_f, samples=100, stubs=(tll_stub,), assumes=(TLL,), rtol=1e-6)
def microwaves(c):
    """The default is the energy density of the cosmic microwave background, 0.261 eV/cm3"""
    x, g = _tables(c, True)
    B = c.naima.estimate_B(x.table, g.table)
    uph = c.V(c.Q(c.M.q(261, 1000), "eV/cm3"), "erg/cm3")
    c.ensure_eq("field", c.V(B, "uG"), _field(c, x, g, uph) * 10**6)


@P.contract(_f, samples=100)
def refused(c):
    """Fluxes with luminosities, what is not an energy density, and malformed tables"""
    what = c.forall("what", ["mixed", "energy density", "missing", "unit", "not a table"])
    f1 = c.forall("form", list(FORMS))
    f2 = f1
    if what == "mixed":
        f2 = c.forall("other", [f for f in FORMS if ("power" in f) != ("power" in f1)])
    x = T(c, form=f1, bins="half width", nr="x", n=3)
    g = T(c, form=f2, bins="half width", nr="g", n=3)
    tables = [x.table, g.table]
    swap = c.forall("which", [0, 1])
    k = {}
    if what == "energy density":
        k["photon_energy_density"] = c.quantity("bad", "energy", lo=0.1, hi=1)
    elif what == "missing":
        tables[swap].remove_column("flux")
    elif what == "unit":
        tables[swap]["energy"] = c.qarray("bad", "length", 3, lo=1, hi=2)
    elif what == "not a table":
        tables[swap] = 3
    UnitsError = __import__("astropy.units").units.UnitsError
    c.ensure_raises("refused", (TypeError, UnitsError), lambda: c.naima.estimate_B(*tables, **k))


@P.contract(_f, samples=60, stubs=(tll_stub,), assumes=(TLL,))
def left_alone(c):
    """The tables given are not changed"""
    x, g = _tables(c)
    before = [{n: t.table[n].copy() for n in ("energy", "flux")} for t in (x, g)]
    c.naima.estimate_B(x.table, g.table)
    for t, b in zip((x, g), before):
        for i in c.each(b["energy"]):
            c.ensure_eq("energy", c.At(t.table["energy"], i, "TeV"), c.At(b["energy"], i, "TeV"))
            c.ensure_eq("flux", c.At(t.table["flux"], i, FORMS[t.form]), c.At(b["flux"], i, FORMS[t.form]))
