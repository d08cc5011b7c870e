"""P14: conversion between differential spectra and SEDs"""
from pyvc.report import Property

P = Property("P14")
_f = "naima.utils.sed_conversion"
# kinds of spectra: differential form, SED form, and the documented units of the two
KINDS = {
    "flux": ("differential flux", "energy flux", "1/(s TeV cm2)", "erg/(s cm2)"),
    "luminosity": ("differential power", "power", "1/(s TeV)", "erg/s"),
    "number of particles": ("inverse energy", "energy", "1/TeV", "erg"),
    "density of particles": ("photon density", "energy density", "1/(TeV cm3)", "erg/cm3"),
}


def _spectrum(c, form):
    kind = c.forall("kind", list(KINDS))
    n = c.size("n", min=1, max=4)
    e = c.qarray("e", "energy", n, lo=1e-3, hi=1e3, ref="TeV")
    f = c.qarray("f", KINDS[kind][form], n, lo=1e-3, hi=1e3)
    return kind, e, f


def _out(c, kind, to):
    return KINDS[kind][3 if to else 2]


@P.contract(_f, samples=160)
def to_sed(c):
    """SED = E^2 dN/dE, in the unit that is returned"""
    kind, e, f = _spectrum(c, 0)
    un, k = c.naima.utils.sed_conversion(e, f.unit, True)
    c.ensure_eq("the documented unit", c.V(c.Q(1.0, un), _out(c, kind, True)), 1)
    s = (f * k).to(un)
    c.ensure_shape("one factor for each energy", k, e)
    for i in c.each(s):
        E = c.At(e, i, "TeV")
        c.ensure_eq("the energy squared", c.At(s, i, un), c.At(f, i, _out(c, kind, False)) * E * E * c.scale("TeV") / c.scale("erg"))


@P.contract(_f, samples=160)
def to_differential(c):
    """dN/dE = SED / E^2, in the unit that is returned"""
    kind, e, f = _spectrum(c, 1)
    un, k = c.naima.utils.sed_conversion(e, f.unit, False)
    c.ensure_eq("the documented unit", c.V(c.Q(1.0, un), _out(c, kind, False)), 1)
    s = (f * k).to(un)
    for i in c.each(s):
        E = c.At(e, i, "TeV")
        c.ensure_eq("divided by the energy squared", c.At(s, i, un) * E * E, c.At(f, i, _out(c, kind, True)) * c.scale("erg") / c.scale("TeV"))


@P.contract(_f, samples=160)
def same_form(c):
    """A spectrum that has the requested form is left alone"""
    sed = c.forall("sed", [True, False])
    kind, e, f = _spectrum(c, 1 if sed else 0)
    un, k = c.naima.utils.sed_conversion(e, f.unit, sed)
    c.ensure_eq("the documented unit", c.V(c.Q(1.0, un), _out(c, kind, sed)), 1)
    s = (f * k).to(un)
    for i in c.each(s):
        c.ensure_eq("the same spectrum", c.At(s, i, f.unit), c.At(f, i, f.unit))


@P.contract(_f, samples=160)
def round_trip(c):
    """Back and forth"""
    form = c.forall("form", [0, 1])
    kind, e, f = _spectrum(c, form)
    conv = c.naima.utils.sed_conversion
    un, k = conv(e, f.unit, form == 0)
    s = (f * k).to(un)
    un2, k2 = conv(e, un, form == 1)
    b = (s * k2).to(un2)
    for i in c.each(b):
        c.ensure_eq("the original", c.At(b, i, f.unit), c.At(f, i, f.unit))


@P.contract(_f, samples=160)
def scalar_energy(c):
    """One energy instead of an array"""
    form = c.forall("form", [0, 1])
    kind = c.forall("kind", list(KINDS))
    e = c.quantity("e", "energy", lo=1e-3, hi=1e3, ref="TeV")
    f = c.quantity("f", KINDS[kind][form], lo=1e-3, hi=1e3)
    sed = c.forall("sed", [True, False])
    un, k = c.naima.utils.sed_conversion(e, f.unit, sed)
    s = (f * k).to(un)
    E, q = c.V(e, "TeV"), c.scale("TeV") / c.scale("erg")
    v = c.V(f, _out(c, kind, form == 1))
    if sed and form == 0:
        v = v * E * E * q
    elif not sed and form == 1:
        v = v / (E * E * q)
    c.ensure_eq("value", c.V(s, un), v)


REFUSED = ["length", "B", "mass", "time", "volume", "density", "flux", "temperature", "angle", ["m/s", "cm/s"], ["erg2", "eV2"], ["W", "erg/s", "1/(eV h)"], ["", "%"]]


@P.contract(_f, samples=60)
def refused(c):
    """A unit that is neither of the forms"""
    x = c.forall("what", [r for r in REFUSED if "W" not in r])
    un = c.unit("un", x)
    e = c.qarray("e", "energy", 1, lo=1, hi=2)
    sed = c.forall("sed", [True, False])
    UnitsError = __import__("astropy.units").units.UnitsError
    c.ensure_raises("refused", UnitsError, lambda: c.naima.utils.sed_conversion(e, un, sed))
