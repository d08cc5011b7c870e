"""P01: the particle distributions evaluate their documented closed forms, whatever the units."""
from pyvc.report import Property

P = Property("P01")


def _energies(c, scalar):
    if scalar:
        return c.quantity("e", "energy", lo=1e-8, hi=1e5, ref="TeV")
    return c.qarray("e", "energy", c.size("n", min=1), lo=1e-8, hi=1e5, ref="TeV")


def _ene(c, name, lo=1e-2, hi=1e3):
    return c.quantity(name, "energy", lo=lo, hi=hi, ref="TeV")


def _amp(c):
    return c.quantity("amplitude", "amplitude", lo=1e-3, hi=1e3)


def _run(c, cls, args, spec):
    scalar = c.forall("scalar", [False, True])
    amp = _amp(c)
    vals = args(c)
    pl = getattr(c.naima.models, cls)(amp, **vals)
    e = _energies(c, scalar)
    r = pl(e)
    c.ensure_unit("unit of the result is that of the amplitude", r, "1/eV")
    c.ensure_shape("shape of the result is that of the energy", r, e)
    A = c.V(amp, "1/eV")
    for i in c.each(e):
        c.ensure_eq("value", c.At(r, i, "1/eV"), A * spec(c, c.At(e, i, "eV"), vals))
    if scalar:
        return
    # a dictionary or table with the energies gives the same
    kind = c.forall("energies in", ["dict", "table", "plain table"])
    r2 = pl({"energy": e} if kind == "dict" else c.table({"energy": e}, plain=kind == "plain table"))
    for i in c.each(e):
        c.ensure_eq("value with a table", c.At(r2, i, "1/eV"), c.At(r, i, "1/eV"))


def _exp_cutoff(c, E, v):
    return c.M.exp(-c.M.pow(E / c.V(v["e_cutoff"], "eV"), c.V(v["beta"])))


def _pl(c, E, v):
    return c.M.pow(E / c.V(v["e_0"], "eV"), -c.V(v["alpha"]))


def _bpl(c, E, v):
    """Broken power law: amplitude at e_0, continuous at the break"""
    e0, eb = c.V(v["e_0"], "eV"), c.V(v["e_break"], "eV")
    a1, a2 = c.V(v["alpha_1"]), c.V(v["alpha_2"])
    return c.M.ite(
        c.M.lt(E, eb),
        lambda: c.M.pow(E / e0, -a1),
        lambda: c.M.pow(eb / e0, a2 - a1) * c.M.pow(E / e0, -a2),
    )


_m = "naima.models."


@P.contract(_m + "PowerLaw.__init__", _m + "PowerLaw.eval", _m + "PowerLaw._calc", _m + "PowerLaw.__call__", _m + "_validate_ene")
def power_law(c):
    _run(c, "PowerLaw", lambda c: dict(e_0=_ene(c, "e_0"), alpha=c.num("alpha")), _pl)


@P.contract(_m + "ExponentialCutoffPowerLaw.eval", _m + "ExponentialCutoffPowerLaw.__call__")
def exponential_cutoff_power_law(c):
    _run(
        c,
        "ExponentialCutoffPowerLaw",
        lambda c: dict(e_0=_ene(c, "e_0"), alpha=c.num("alpha"), e_cutoff=_ene(c, "e_cutoff", 1.0), beta=c.num("beta", lo=0.2, hi=2)),
        lambda c, E, v: _pl(c, E, v) * _exp_cutoff(c, E, v),
    )


@P.contract(_m + "BrokenPowerLaw.eval", _m + "BrokenPowerLaw.__call__")
def broken_power_law(c):
    _run(
        c,
        "BrokenPowerLaw",
        lambda c: dict(e_0=_ene(c, "e_0"), e_break=_ene(c, "e_break"), alpha_1=c.num("alpha_1"), alpha_2=c.num("alpha_2")),
        _bpl,
    )


@P.contract(_m + "ExponentialCutoffBrokenPowerLaw.eval", _m + "ExponentialCutoffBrokenPowerLaw.__call__")
def exponential_cutoff_broken_power_law(c):
    _run(
        c,
        "ExponentialCutoffBrokenPowerLaw",
        lambda c: dict(
            e_0=_ene(c, "e_0"),
            e_break=_ene(c, "e_break"),
            alpha_1=c.num("alpha_1"),
            alpha_2=c.num("alpha_2"),
            e_cutoff=_ene(c, "e_cutoff", 1.0),
            beta=c.num("beta", lo=0.2, hi=2),
        ),
        lambda c, E, v: _bpl(c, E, v) * _exp_cutoff(c, E, v),
    )


@P.contract(_m + "LogParabola.eval", _m + "LogParabola.__call__")
def log_parabola(c):
    _run(
        c,
        "LogParabola",
        lambda c: dict(e_0=_ene(c, "e_0"), alpha=c.num("alpha"), beta=c.num("beta", lo=-0.5, hi=0.5)),
        lambda c, E, v: c.M.pow(
            E / c.V(v["e_0"], "eV"), -c.V(v["alpha"]) - c.V(v["beta"]) * c.M.log(E / c.V(v["e_0"], "eV"))
        ),
    )


@P.contract(_m + "ExponentialCutoffPowerLaw.__init__", _m + "ExponentialCutoffBrokenPowerLaw.__init__")
def default_beta(c):
    """The cutoff is a plain exponential when beta is not given"""
    amp, e = _amp(c), _energies(c, False)
    v = dict(e_0=_ene(c, "e_0"), e_cutoff=_ene(c, "e_cutoff"), alpha=c.num("alpha"))
    r = c.naima.models.ExponentialCutoffPowerLaw(amp, **v)(e)
    b = dict(e_0=v["e_0"], e_break=_ene(c, "e_break"), alpha_1=c.num("alpha_1"), alpha_2=c.num("alpha_2"), e_cutoff=v["e_cutoff"])
    rb = c.naima.models.ExponentialCutoffBrokenPowerLaw(amp, **b)(e)
    for i in c.each(e):
        E = c.At(e, i, "eV")
        cut = c.M.exp(-E / c.V(v["e_cutoff"], "eV"))
        c.ensure_eq("beta is one (power law)", c.At(r, i, "1/eV"), c.V(amp, "1/eV") * _pl(c, E, v) * cut)
        c.ensure_eq("beta is one (broken power law)", c.At(rb, i, "1/eV"), c.V(amp, "1/eV") * _bpl(c, E, b) * cut)


@P.contract(_m + "PowerLaw.__init__", _m + "_validate_ene", "naima.extern.validator.validate_scalar", "naima.extern.validator.validate_physical_type")
def bad_energies(c):
    """Energies that are not energies are rejected"""
    amp = _amp(c)
    pl = c.naima.models.PowerLaw(amp, e_0=_ene(c, "e_0"), alpha=c.num("alpha"))
    c.ensure_raises("length instead of an energy", Exception, lambda: pl(c.quantity("d", "length")))
    c.ensure_raises("e_0 is not an energy", Exception, lambda: c.naima.models.PowerLaw(amp, c.quantity("d2", "length"), 2))
