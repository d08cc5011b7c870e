"""P10: photon fields of inverse Compton emission"""
from pyvc.report import Property
from .common import particles, tll_stub, ic_stub, line_stub, TLL, IC

P = Property("P10")
_r = "naima.radiative.InverseCompton."


def _ar(c):
    """Radiation constant [J/(m3 K4)]"""
    return 4 * c.const("sigma_sb") / c.const("c")


NAMED = {"CMB": (2.72548, None), "FIR": (30, 0.5), "NIR": (3000, 1.0)}


def _is_named(c, s, name):
    T, u = NAMED[name]
    q = c.M.q
    c.ensure_is("black body field", s["type"] == "thermal" and s["isotropic"] is True, repr(s.get("type")))
    c.ensure_eq("temperature of a named field", c.V(s["T"], "K"), q(T))
    if u is None:
        c.ensure_eq("density of the microwave background", c.V(s["u"], "J/m3"), _ar(c) * q(T) * q(T) * q(T) * q(T))
    else:
        c.ensure_eq("density of a named field", c.V(s["u"], "eV/cm3"), q(u))


@P.contract(_r + "_process_input_seed", _r + "__init__")
def named(c):
    """Fields given by name, in a list or as one string"""
    pd, _ = particles(c)
    order = c.forall("order", [["CMB"], ["FIR", "CMB"], ["NIR", "FIR", "CMB"], ["CMB", "NIR"]])
    arg = order if c.forall("string", [False, True]) is False else "-".join(order)
    m = c.naima.radiative.InverseCompton(pd, seed_photon_fields=arg)
    c.ensure_is("names and order of the fields", list(m.seed_photon_fields) == order, repr(list(m.seed_photon_fields)))
    for n in order:
        _is_named(c, m.seed_photon_fields[n], n)


@P.contract(_r + "__init__", _r + "_process_input_seed")
def default(c):
    """The microwave background when nothing is given"""
    pd, _ = particles(c)
    m = c.naima.radiative.InverseCompton(pd)
    c.ensure_is("names of the fields", list(m.seed_photon_fields) == ["CMB"])
    _is_named(c, m.seed_photon_fields["CMB"], "CMB")


@P.contract(_r + "_process_input_seed", "naima.extern.validator.validate_scalar")
def thermal(c):
    """Fields given by temperature, energy density and angle"""
    T = c.quantity("T", "temperature", lo=1, hi=1e5, ref="K")
    kind = c.forall("density", ["given", "zero", "zero quantity"])
    if kind == "given":
        uu = c.quantity("u", "energy density", lo=1e-2, hi=1e2, ref="eV/cm3")
        want = c.V(uu, "J/m3")
    else:
        uu = 0 if kind == "zero" else c.Q(0 if c.symbolic else 0.0, c.u("eV/cm3"))
        t = c.V(T, "K")
        want = _ar(c) * t * t * t * t
    ani = c.forall("angle", [False, True])
    th = c.quantity("theta", "angle", lo=0.2, hi=6, ref="rad")
    pos = c.forall("position", [0, 1])
    fields = ["FIR", ["mine", T, uu] + ([th] if ani else [])]
    if pos == 0:
        fields = fields[::-1]
    given = [list(f) if isinstance(f, list) else f for f in fields]
    t0, T0 = c.V(T, "K"), T
    r = c.naima.radiative.InverseCompton._process_input_seed(fields)
    c.ensure_is("names and order of the fields", list(r) == (["mine", "FIR"] if pos == 0 else ["FIR", "mine"]), repr(list(r)))
    _is_named(c, r["FIR"], "FIR")
    s = r["mine"]
    c.ensure_is("type of the field", s["type"] == "thermal" and s["isotropic"] is (not ani), repr(s["type"]))
    c.ensure_eq("temperature", c.V(s["T"], "K"), t0)
    c.ensure_eq("energy density", c.V(s["u"], "J/m3"), want)
    if ani:
        c.ensure_eq("angle", c.V(s["theta"], "rad"), c.V(th, "rad"))
    # the list of the caller
    for a, b in zip(fields, given):
        c.ensure_is("the list of the caller is left alone", a is b or (len(a) == len(b) and all(x is y for x, y in zip(a, b))))
    c.ensure_eq("the temperature of the caller is left alone", c.V(T0, "K"), t0)


@P.contract(_r + "_process_input_seed", "naima.extern.validator.validate_array")
def line(c):
    E = c.quantity("E", "energy", lo=1e-3, hi=1e3, ref="eV")
    uu = c.quantity("u", "energy density", lo=1e-2, hi=1e2, ref="eV/cm3")
    s = c.naima.radiative.InverseCompton._process_input_seed([["line", E, uu]])["line"]
    c.ensure_is("type of the field", s["type"] == "array" and s["isotropic"] is True, repr(s["type"]))
    c.ensure_eq("one energy", c.M.eq(c.V(c.length(s["energy"]) if not c.symbolic else c.length(s["energy"].val)), 1), True)
    c.ensure_eq("energy", c.At(s["energy"], 0 if not c.symbolic else c.t.ZERO, "eV"), c.V(E, "eV"))
    c.ensure_eq("energy density", c.At(s["photon_density"], 0 if not c.symbolic else c.t.ZERO, "eV/cm3"), c.V(uu, "eV/cm3"))


@P.contract(_r + "_process_input_seed", "naima.extern.validator.validate_array")
def table(c):
    """Tables of photon densities, or of energy densities per logarithmic interval"""
    n = c.size("n", min=2)
    E = c.qarray("E", "energy", n, lo=1e-3, hi=1e3, ref="eV", pos=True)
    kind = c.forall("kind", ["photon density", "energy density"])
    uu = c.qarray("u", kind, n, lo=1e-2, hi=1e2, pos=True)
    ref = "1/(eV cm3)" if kind == "photon density" else "eV/cm3"
    u0 = [c.At(uu, i, ref) for i in c.each(uu)]
    r = c.naima.radiative.InverseCompton._process_input_seed([["t", E, uu]])["t"]
    c.ensure_is("type of the field", r["type"] == "array" and r["isotropic"] is True, repr(r["type"]))
    c.ensure_shape("one density for each energy", r["photon_density"], uu)
    c.ensure_unit("unit of the density", r["photon_density"], "1/(eV cm3)")
    for i in c.each(uu):
        e = c.At(E, i, "eV")
        c.ensure_eq("energy", c.At(r["energy"], i, "eV"), e)
        want = c.At(uu, i, ref)
        c.ensure_eq("density", c.At(r["photon_density"], i, "1/(eV cm3)"), want if kind == "photon density" else want / (e * e))
    if not c.symbolic:
        for k, i in enumerate(c.each(uu)):
            c.ensure_eq("the densities of the caller are left alone", c.At(uu, i, ref), u0[k])


BAD = {
    "unknown name": lambda c, T, uu, th, d: ["XYZ"],
    "temperature is not one": lambda c, T, uu, th, d: [["x", d, uu]],
    "density is not one": lambda c, T, uu, th, d: [["x", T, d]],
    "density is a temperature": lambda c, T, uu, th, d: [["x", T, T]],
    "angle is not one": lambda c, T, uu, th, d: [["x", T, uu, d]],
    "two entries": lambda c, T, uu, th, d: [["x", T]],
    "five entries": lambda c, T, uu, th, d: [["x", T, uu, th, th]],
    "a tuple": lambda c, T, uu, th, d: [("x", T, uu)],
    "a second field that is wrong": lambda c, T, uu, th, d: ["CMB", "XYZ"],
    "line with a density of photons": lambda c, T, uu, th, d: [["x", c.quantity("E", "energy", lo=1, hi=10), c.quantity("p", "photon density", lo=1, hi=10)]],
}


@P.contract(_r + "_process_input_seed", "naima.extern.validator.validate_scalar", "naima.extern.validator.validate_physical_type")
def malformed(c):
    T = c.quantity("T", "temperature", lo=1, hi=1e5, ref="K")
    uu = c.quantity("u", "energy density", lo=1e-2, hi=1e2, ref="eV/cm3")
    th = c.quantity("theta", "angle", lo=0.2, hi=6, ref="rad")
    d = c.quantity("d", "length", lo=1, hi=10)
    k = c.forall("case", sorted(BAD))
    arg = BAD[k](c, T, uu, th, d)
    c.ensure_raises(k, TypeError, lambda: c.naima.radiative.InverseCompton._process_input_seed(arg))


@P.contract(_r + "_process_input_seed", "naima.extern.validator.validate_scalar")
def negative(c):
    """Negative temperatures and densities"""
    T = c.quantity("T", "temperature", lo=1, hi=1e5, ref="K")
    uu = c.quantity("u", "energy density", lo=1e-2, hi=1e2, ref="eV/cm3")
    f = c.naima.radiative.InverseCompton._process_input_seed
    c.ensure_raises("negative temperature", ValueError, lambda: f([["x", -T, uu]]))
    c.ensure_raises("negative density", ValueError, lambda: f([["x", T, -uu]]))


def _model(c, pd):
    """Three fields of different kinds, in any order"""
    T = c.quantity("T", "temperature", lo=1, hi=1e4, ref="K")
    uu = c.quantity("u", "energy density", lo=1e-2, hi=1e2, ref="eV/cm3")
    th = c.quantity("theta", "angle", lo=0.2, hi=6, ref="rad")
    E = c.quantity("E", "energy", lo=1e-2, hi=10, ref="eV")
    f = {"CMB": "CMB", "a": ["a", T, uu, th], "l": ["l", E, uu]}
    order = c.forall("order", [["CMB"], ["CMB", "a", "l"], ["l", "CMB"], ["a", "l", "CMB"]])
    return c.naima.radiative.InverseCompton(pd, seed_photon_fields=[f[k] for k in order], nEed=10), order


@P.contract(_r + "_spectrum", _r + "flux", _r + "sed", "naima.radiative.BaseRadiative.flux", stubs=(tll_stub, ic_stub, line_stub), assumes=[TLL, IC], samples=25)
def one_field(c):
    """Emission of each field, and of all of them"""
    pd, _ = particles(c)
    m, order = _model(c, pd)
    e = c.qarray("e", "energy", c.size("n", min=2, max=3), lo=1e-6, hi=1e2, ref="TeV", pos=True)
    d = c.quantity("d", "length", lo=0.1, hi=100, ref="kpc", pos=True)
    if c.forall("evaluated before", [False, True]):
        m.flux(c.qarray("e0", "energy", c.size("n0", min=2, max=3), lo=1e-6, hi=1e2, ref="TeV", pos=True), distance=0)
    alone = {}
    for k in order:
        # the same field in a model of its own
        m1 = c.naima.radiative.InverseCompton(pd, nEed=10)
        m1.seed_photon_fields = {k: m.seed_photon_fields[k]}
        alone[k] = m1.flux(e, distance=0)
    tot = m.flux(e, distance=0)
    c.ensure_unit("unit", tot, "1/(s eV)")
    cm = c.V(d, "cm")
    kpc = c.scale("kpc") / c.scale("cm")
    area = lambda x: 4 * c.M.pi * x * x
    fl = {k: m.flux(e, distance=0, seed=(k if c.forall("by", ["name", "number"]) == "name" else j)) for j, k in enumerate(order)}
    fd = {k: m.flux(e, distance=d, seed=k) for k in order}
    fk = {k: m.flux(e, seed=j) for j, k in enumerate(order)}
    sd = {k: m.sed(e, distance=d, seed=k) for k in order}
    sk = {k: m.sed(e, seed=k) for k in order}
    s0 = {k: m.sed(e, distance=0, seed=j) for j, k in enumerate(order)}
    erg = c.scale("eV") / c.scale("erg")
    for k in order:
        c.ensure_unit("unit of the flux of a field", fd[k], "1/(s cm2 eV)")
        c.ensure_unit("unit of the luminosity of a field", fl[k], "1/(s eV)")
        c.ensure_unit("unit of the SED of a field", sd[k], "erg/(s cm2)")
        c.ensure_unit("unit of the luminosity SED of a field", s0[k], "erg/s")
    for i in c.each(tot):
        E = c.At(e, i, "eV")
        s = 0
        for k in order:
            l = c.At(alone[k], i, "1/(s eV)")
            s = s + l
            c.ensure_eq("luminosity of a field", c.At(fl[k], i, "1/(s eV)"), l)
            c.ensure_eq("flux of a field", c.At(fd[k], i, "1/(s cm2 eV)") * area(cm), l)
            c.ensure_eq("flux of a field at the default distance", c.At(fk[k], i, "1/(s cm2 eV)") * area(kpc), l)
            c.ensure_eq("SED of a field", c.At(sd[k], i, "erg/(s cm2)") * area(cm), E * E * l * erg)
            c.ensure_eq("SED of a field at the default distance", c.At(sk[k], i, "erg/(s cm2)") * area(kpc), E * E * l * erg)
            c.ensure_eq("SED of a field without distance", c.At(s0[k], i, "erg/s"), E * E * l * erg)
        c.ensure_eq("total", c.At(tot, i, "1/(s eV)"), s)


@P.contract(_r + "flux", samples=6)
def no_such_field(c):
    pd, _ = particles(c)
    m = c.naima.radiative.InverseCompton(pd, seed_photon_fields=["CMB", "FIR"], nEed=10)
    e = c.qarray("e", "energy", c.size("n", min=2, max=3), lo=1e-6, hi=1e2, ref="TeV", pos=True)
    seed = c.forall("seed", ["NIR", 2, -1, 10])
    c.ensure_raises("no such field", ValueError, lambda: m.flux(e, seed=seed))
    c.ensure_raises("no such field (SED)", ValueError, lambda: m.sed(e, seed=seed))
