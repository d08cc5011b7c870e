"""P18: posterior and priors"""
from pyvc.report import Property
from .P17 import FORMS, _data

P = Property("P18")
_c = "naima.core."
LIKE = "in the contracts of lnprob, lnprobmodel stands for an arbitrary number (its value: property P17)"


# ------------------------------------------------------------ priors
def _inf(c, x):
    """Is the number minus infinity"""
    if c.symbolic:
        return c.t._infsign(x) < 0
    return x == -c.M.inf


def _support(c, name, values, inside, density):
    """Minus infinity outside of the support, the logarithm of the density up to a constant inside"""
    M = c.M
    got = []
    for v, f in values:
        x = c.V(f)
        ok = inside(c.V(v))
        if _inf(c, x):
            c.ensure("%s: minus infinity only outside of the support" % name, M.not_(ok))
        else:
            c.ensure("%s: a number only inside of the support" % name, ok)
            got.append((c.V(v), x))
    if len(got) == 2:
        (a, x), (b, y) = got
        c.ensure_eq("%s: the logarithm of the density" % name, x - y, density(a) - density(b), atol=1e-9)


@P.contract(_c + "uniform_prior", samples=400)
def uniform(c):
    a, b = c.num("umin", lo=-5, hi=5), c.num("umax", lo=-5, hi=5)
    v, w = c.num("v", lo=-6, hi=6), c.num("w", lo=-6, hi=6)
    if not c.symbolic:
        v = c.choice("edge", [v, v, a, b])
    f = c.naima.core.uniform_prior
    M = c.M
    _support(c, "uniform", [(x, f(x, a, b)) for x in (v, w)], lambda x: M.and_(M.le(c.V(a), x), M.le(x, c.V(b))), lambda x: M.q(0))


@P.contract(_c + "normal_prior", samples=300)
def normal(c):
    M = c.M
    m, s = c.num("mean", lo=-5, hi=5), c.num("sigma", lo=0.1, hi=10, pos=True)
    v, w = c.num("v", lo=-20, hi=20), c.num("w", lo=-20, hi=20)
    f = c.naima.core.normal_prior

    def density(x):
        z = (x - c.V(m)) / c.V(s)
        return -z * z / 2

    _support(c, "normal", [(x, f(x, m, s)) for x in (v, w)], lambda x: M.le(0, 0) if c.symbolic else True, density)
    # as a function of the width too: the density is normalised
    s2 = c.num("sigma2", lo=0.1, hi=10, pos=True)
    c.ensure_eq("normalised for every width", c.V(f(m, m, s)) - c.V(f(m, m, s2)), M.log(c.V(s2)) - M.log(c.V(s)), atol=1e-9)


@P.contract(_c + "log_uniform_prior", samples=400)
def log_uniform(c):
    M = c.M
    given = c.forall("given", ["both", "lower", "upper", "none"])
    a, b = c.num("umin", lo=-1, hi=5), c.num("umax", lo=-1, hi=50)
    v, w = c.num("v", lo=-6, hi=60), c.num("w", lo=-6, hi=60)
    if not c.symbolic:
        v = c.choice("edge", [v, v, a, b, 0.0])
        a, b = c.choice("zero lower", [a, a, 0.0]), c.choice("zero upper", [b, b, 0.0])
    k = {}
    if given in ("both", "lower"):
        k["umin"] = a
    if given in ("both", "upper"):
        k["umax"] = b
    f = c.naima.core.log_uniform_prior

    def inside(x):
        out = [M.lt(0, x)]
        if "umin" in k:
            out.append(M.le(c.V(a), x))
        if "umax" in k:
            out.append(M.le(x, c.V(b)))
        return M.and_(*out)

    _support(c, "log-uniform", [(x, f(x, **k)) for x in (v, w)], inside, lambda x: -M.log(x))


# ------------------------------------------------------------ posterior
def _likelihood(pkg):
    from pyvc import sym, terms as t

    def make(original):
        def lnprobmodel(model, data):
            v = sym._arrterm(model.val)
            return sym.num(t.app("loglike", (t.mul(v, model.unit.scale), sym._arrterm(data["flux"].val))))

        return lnprobmodel

    pkg.stubs["like"] = ("naima.core", "lnprobmodel", make)


def _expected(c, model, d):
    if c.symbolic:
        return c.t.app("loglike", (c.t.mul(c.s._arrterm(model.val), model.unit.scale), c.s._arrterm(d["flux"].val)))
    return c.V(c.naima.core.lnprobmodel(model, d))


def _nan(c, x):
    """Not a number"""
    if c.symbolic:
        return c.V(x) is c.t.nan()
    return isinstance(x, float) and x != x


@P.contract(_c + "lnprob", stubs=(_likelihood,), assumes=[LIKE], samples=300)
def posterior(c):
    form = c.choice("form", list(FORMS))
    d, n = _data(c, form)
    kind = c.forall("prior", ["none", "number", "excluded"])
    out = c.forall("model", ["alone", "only", "one blob", "same length", "same shape", "three blobs"])
    container = c.choice("container", [tuple, list])
    pars = c.array("pars", c.size("k", min=1, max=3), lo=-1, hi=1)
    m = c.qarray("m", form, n, lo=0.1, hi=10, ref=FORMS[form])
    p = c.num("p", lo=-1e6, hi=10)
    if not c.symbolic:
        pars.setflags(write=False)
    x = c.quantity("x", "energy", lo=1, hi=10)
    if out == "same shape" and not c.symbolic:
        n = len(m)
    extra = {"alone": (), "only": (), "one blob": (x,), "same length": (c.qarray("y", "energy", n, lo=1, hi=10),), "same shape": ((c.qarray("y", "energy", n, lo=1, hi=10), c.qarray("z", form, n, lo=1, hi=10)),), "three blobs": (x, c.qarray("y", "energy", c.size("j", min=1, max=3), lo=1, hi=10), "text")}[out]
    calls = []

    def model(*a):
        calls.append(a)
        return m if out == "alone" else container((m,) + extra)

    def prior(*a):
        calls.append(a)
        return p if kind == "number" else -c.M.inf if not c.symbolic else -c.naima.core.np.inf

    r = c.naima.core.lnprob(pars, d, model, None if kind == "none" else prior)
    mc = [a for a in calls if len(a) == 2]
    pcs = [a for a in calls if len(a) == 1]
    c.ensure_is("the model is computed once, for these parameters and data", len(mc) == 1 and mc[0][0] is pars and mc[0][1] is d)
    if kind != "none":
        c.ensure_is("the prior is computed once, for these parameters", len(pcs) == 1 and pcs[0][0] is pars)
    total = c.V(r[0])
    if kind == "excluded":
        c.ensure_is("minus infinity", _inf(c, total))
    else:
        c.ensure_eq("prior plus likelihood", total, _expected(c, m, d) + (c.V(p) if kind == "number" else 0), atol=1e-9)
    blobs = r[1:]
    c.ensure_is("the first blob is the model", blobs[0] is m)
    k = 1 + len(extra)
    c.ensure_is("the other blobs are those of the model", all(a is b for a, b in zip(blobs[1:], extra)))
    # the sampler puts the blobs into an array of objects: blobs that all have the same length would be merged
    empty = blobs[k:]
    c.ensure_is("nothing but an empty blob follows", len(empty) == 0 or len(empty) == 1 and _nan(c, empty[0]))
    if out in ("alone", "only", "same length"):
        c.ensure_is("blobs of the same length are kept apart", len(empty) == 1)
    if not c.symbolic:
        import numpy as np

        a = np.array([blobs, blobs], dtype=object)
        c.ensure_is("an array of objects has the blobs as its elements", a.shape == (2, len(blobs)) and all(x is y for x, y in zip(a[0], blobs)))


@P.contract(_c + "lnprob", _c + "lnprobmodel", samples=60, rtol=1e-6)
def whole(c):
    """With the likelihood itself, of a single point"""
    form = c.forall("form", list(FORMS))
    d, n = _data(c, form, ul=c.array_of([False]), n=1)
    m = c.qarray("m", form, 1, lo=0.1, hi=10, ref=FORMS[form])
    p = c.num("p", lo=-1e6, hi=10)
    r = c.naima.core.lnprob(c.array_of([1.0]), d, lambda pars, data: m, lambda pars: p)
    u = FORMS[form]
    f, v = c.At(d["flux"], 0, u), c.At(m, 0, u)
    s = c.M.ite(c.M.lt(f, v), lambda: c.At(d["flux_error_hi"], 0, u), lambda: c.At(d["flux_error_lo"], 0, u))
    c.ensure_eq("posterior", c.V(r[0]), c.V(p) - (v - f) * (v - f) / (2 * s * s), atol=1e-9)
