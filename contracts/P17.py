"""P17: the likelihood of the data"""
from pyvc.report import Property

P = Property("P17")
_f = "naima.core.lnprobmodel"
FORMS = {"differential flux": "1/(cm2 s TeV)", "energy flux": "erg/(cm2 s)", "differential power": "1/(s TeV)", "power": "erg/s"}
SED = {"differential flux": "energy flux", "energy flux": "differential flux", "differential power": "power", "power": "differential power"}


def _data(c, form, ul=True, n=None, err=None):
    """A validated data table"""
    n = c.size("n", min=1, max=6) if n is None else n
    d = {
        "energy": c.qarray("energy", "energy", n, lo=1e-3, hi=1e2, ref="TeV"),
        "flux": c.qarray("flux", form, n, lo=0.1, hi=10, ref=FORMS[form]),
    }
    d["flux_error_lo"] = c.qarray("lo", form, n, lo=0.05, hi=1, ref=FORMS[form])
    d["flux_error_hi"] = c.qarray("hi", form, n, lo=0.05, hi=1, ref=FORMS[form])
    d["ul"] = c.boolarray("ul", n) if ul is True else ul
    d["cl"] = c.array("cl", n, lo=0.5, hi=0.99, pos=True)
    if c.symbolic:
        # confidence levels lie between 0 and 1
        cl = d["cl"]
        bound = lambda idx, bases: [c.t.lt(cl.at(*idx), c.t.ONE)] if len(idx) == 1 else []
        c.ex.axioms = list(c.ex.axioms) + [bound]
    return c.table(d), n


def _penalty(c, d, i, m, form):
    """Of one point, for the model value m in the unit of the form"""
    M, u = c.M, FORMS[form]
    f = c.At(d["flux"], i, u)
    s = M.ite(M.lt(f, m), lambda: c.At(d["flux_error_hi"], i, u), lambda: c.At(d["flux_error_lo"], i, u))
    r = (m - f) / s
    limit = M.ite(M.lt(f, m), lambda: M.log(1 - c.At(d["cl"], i)), lambda: M.q(0))
    return M.ite(_b(c, c.At(d["ul"], i)), lambda: limit, lambda: -r * r / 2)


def _b(c, x):
    return c.t.ne(x, c.t.ZERO) if c.symbolic and isinstance(x, c.t.T) else x


def _not_tied(c, n, x, d, u):
    """At run time a model that meets a limit exactly falls on either side of it by
    the rounding of the units; what holds there is only proved"""
    if not c.symbolic:
        for i in range(n):
            f = c.At(d["flux"], i, u)
            c.assume(abs(x(i) - f) > 1e-9 * abs(f))


@P.contract(_f, samples=400, rtol=1e-6)
def likelihood(c):
    """Model in the form of the data, in any units"""
    form = c.forall("form", list(FORMS))
    d, n = _data(c, form)
    m = c.qarray("model", form, n, lo=0.1, hi=10, ref=FORMS[form])
    u = FORMS[form]
    _not_tied(c, n, lambda i: c.At(m, i, u), d, u)
    v = c.naima.core.lnprobmodel(m, d)
    c.ensure_eq("log-likelihood", c.V(v), c.M.sum(n if not c.symbolic else c.V(n), lambda i: _penalty(c, d, i, c.At(m, i, u), form)), atol=1e-12)


@P.contract(_f, samples=400, rtol=1e-6)
def other_form(c):
    """A model that is differential where the data are a SED, or the other way round"""
    form = c.forall("form", list(FORMS))
    d, n = _data(c, form)
    m = c.qarray("model", SED[form], n, lo=0.1, hi=10)
    q = c.scale("erg") / c.scale("TeV")

    def value(i):
        E, x = c.At(d["energy"], i, "TeV"), c.At(m, i, FORMS[SED[form]])
        return x * E * E / q if "differential" not in form else x / (E * E) * q

    _not_tied(c, n, value, d, FORMS[form])
    v = c.naima.core.lnprobmodel(m, d)

    c.ensure_eq("log-likelihood", c.V(v), c.M.sum(n if not c.symbolic else c.V(n), lambda i: _penalty(c, d, i, value(i), form)), atol=1e-12)


@P.contract(_f, samples=100)
def best(c):
    """A model that meets the data is the best possible; none is better"""
    form = c.forall("form", list(FORMS))
    d, n = _data(c, form)
    u = FORMS[form]
    c.ensure_eq("model equal to the data", c.V(c.naima.core.lnprobmodel(d["flux"] * 1, d)), 0)
    m = c.qarray("model", form, n, lo=0.1, hi=10, ref=u)
    v = c.V(c.naima.core.lnprobmodel(m, d))
    if not c.symbolic:
        c.ensure("not above the best", v <= 0)
        return
    (i,) = c.indices(n)[0]
    c.ensure("each point contributes at most zero", c.M.le(_penalty(c, d, i, c.At(m, i, u), form), 0))


@P.contract(_f, samples=60)
def one_point(c):
    """A single detection or limit"""
    form = c.forall("form", list(FORMS))
    isul = c.forall("is a limit", [True, False])
    d, n = _data(c, form, ul=c.array_of([isul]), n=1)
    u = FORMS[form]
    m = c.qarray("model", form, 1, lo=0.1, hi=10, ref=u)
    _not_tied(c, 1, lambda i: c.At(m, i, u), d, u)
    c.ensure_eq("log-likelihood", c.V(c.naima.core.lnprobmodel(m, d)), _penalty(c, d, 0 if not c.symbolic else c.t.ZERO, c.At(m, 0, u), form), atol=1e-12)


@P.contract(_f, samples=60)
def refused(c):
    """A flux cannot be compared with a luminosity"""
    a = c.forall("data", list(FORMS))
    b = c.forall("model", list(FORMS))
    c.assume(("power" in a) != ("power" in b))
    d, n = _data(c, a, ul=c.array_of([False]), n=1)
    m = c.qarray("m", b, 1, lo=0.1, hi=10)
    UnitsError = __import__("astropy.units").units.UnitsError
    c.ensure_raises("refused", UnitsError, lambda: c.naima.core.lnprobmodel(m, d))


@P.contract(_f, samples=60)
def left_alone(c):
    """Neither the model nor the data are changed"""
    form = c.forall("form", list(FORMS))
    d, n = _data(c, form)
    other = c.forall("other form", [True, False])
    mf = SED[form] if other else form
    m = c.qarray("model", mf, n, lo=0.1, hi=10)
    m0, f0 = m.copy(), d["flux"].copy()
    c.naima.core.lnprobmodel(m, d)
    for i in c.each(m):
        c.ensure_eq("model", c.At(m, i, FORMS[mf]), c.At(m0, i, FORMS[mf]))
        c.ensure_eq("data", c.At(d["flux"], i, FORMS[form]), c.At(f0, i, FORMS[form]))
