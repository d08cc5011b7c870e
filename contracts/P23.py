"""P23: input validation"""
from pyvc.report import Property

P = Property("P23")
_v = "naima.extern.validator."
DOMAINS = [None, "positive", "strictly-positive", "negative", "strictly-negative", "range", "range list"]
TYPES = {
    "energy": "energy",
    "length": "length",
    "density": "number density",
    "B": "magnetic flux density",
    "amplitude": "differential energy",
    "energy density": "energy density",
    "differential flux": "differential flux",
    "power": "power",
    "energy flux": "energy flux",
    "differential power": "differential power",
    "flux": "photon flux",
    "temperature": "temperature",
    "photon density": "differential number density",
}
TYPES.pop("flux")


def _inside(c, dom, v, a, b):
    M = c.M
    return {
        None: lambda: M.le(0, 0) if c.symbolic else True,
        "positive": lambda: M.le(0, v),
        "strictly-positive": lambda: M.lt(0, v),
        "negative": lambda: M.le(v, 0),
        "strictly-negative": lambda: M.lt(v, 0),
        "range": lambda: M.and_(M.le(a, v), M.le(v, b)),
        "range list": lambda: M.and_(M.le(a, v), M.le(v, b)),
    }[dom]()


def _accepted(c, f, value, exc=ValueError):
    """Whether the value is accepted (and then returned unchanged)"""
    try:
        r = f()
    except exc:
        return False
    c.ensure_is("returned as it is", r is value)
    return True


def _decide(c, ok, inside):
    M = c.M
    c.ensure("accepted exactly when it is in the domain", inside if ok else M.not_(inside))


@P.contract(_v + "validate_scalar", samples=400)
def number(c):
    dom = c.forall("domain", DOMAINS)
    v = c.num("v", lo=-5, hi=5, extra=(0.0, 1e-300, -1e-300))
    a, b = c.num("a", lo=-5, hi=5), c.num("b", lo=-5, hi=5)
    c.assume(c.M.le(c.V(a), c.V(b)))
    if dom == "positive" and not c.symbolic:
        v = c.choice("kind", [float, int, abs])(v)
    d = (a, b) if dom == "range" else [a, b] if dom == "range list" else dom
    ok = _accepted(c, lambda: c.naima.extern.validator.validate_scalar("x", v, domain=d), v)
    _decide(c, ok, _inside(c, dom, c.V(v), c.V(a), c.V(b)))


@P.contract(_v + "validate_scalar", _v + "validate_physical_type", samples=400)
def quantity(c):
    """The domain holds in every unit of the value and of the limits"""
    dom = c.forall("domain", DOMAINS)
    pt = c.forall("type", ["energy", "B"])
    v = c.quantity("v", pt, pos=False, lo=-5, hi=5, extra=(0.0,))
    a, b = (c.quantity(n, pt, pos=False, lo=-5, hi=5) for n in "ab")
    ref = {"energy": "eV", "B": "G"}[pt]
    c.assume(c.M.le(c.V(a, ref), c.V(b, ref)))
    d = (a, b) if dom == "range" else [a, b] if dom == "range list" else dom
    ok = _accepted(c, lambda: c.naima.extern.validator.validate_scalar("x", v, domain=d, physical_type=TYPES[pt]), v)
    _decide(c, ok, _inside(c, dom, c.V(v, ref), c.V(a, ref), c.V(b, ref)))


@P.contract(_v + "validate_physical_type", _v + "validate_scalar", _v + "validate_array", samples=400, max_paths=3000)
def dimension(c):
    """The unit has the dimension, whichever unit it is; otherwise a TypeError"""
    have = c.forall("have", list(TYPES))
    want = c.forall("want", list(TYPES))
    how = c.choice("how", ["name", "list", "tuple"])
    fn = c.choice("function", ["validate_scalar", "validate_array", "validate_physical_type"])
    if fn == "validate_array":
        q = c.qarray("q", have, c.size("n", min=1, max=4), lo=1e-3, hi=1e3)
    else:
        q = c.quantity("q", have, lo=1e-3, hi=1e3)
    other = "length" if want != "length" else "energy"
    t = TYPES[want]
    pt = {"name": t, "list": [TYPES[other], t], "tuple": (t, TYPES[other])}[how]
    fits = have == want or (how != "name" and have == other)
    f = getattr(c.naima.extern.validator, fn)
    try:
        r = f("x", q, physical_type=pt)
        ok = True
    except TypeError:
        ok = False
    c.ensure_is("accepted exactly when the dimension is right", ok == fits, "%s for %s: %s" % (have, pt, ok))
    if ok and fn != "validate_physical_type":
        c.ensure_is("returned as it is", r is q)


@P.contract(_v + "validate_physical_type", _v + "validate_scalar", _v + "validate_array", samples=60)
def without_unit(c):
    """A number where a quantity is needed, and the other way round"""
    v = c.num("v", lo=-5, hi=5)
    a = c.array("a", c.size("n", min=1, max=4))
    q = c.quantity("q", "energy", lo=-5, hi=5, pos=False)
    m = c.naima.extern.validator
    c.ensure_raises("number for an energy", TypeError, lambda: m.validate_scalar("x", v, physical_type="energy"))
    c.ensure_raises("number for an energy or a length", TypeError, lambda: m.validate_physical_type("x", v, ["energy", "length"]))
    c.ensure_raises("array for energies", TypeError, lambda: m.validate_array("x", a, physical_type="energy"))
    c.ensure_raises("energy for a number", TypeError, lambda: m.validate_scalar("x", q))
    c.ensure_raises("array for a number", TypeError, lambda: m.validate_scalar("x", a))
    for bad in ("a", "1", None, 1j, [1.0], (1.0, 2.0), {}):
        c.ensure_raises("%r for a number" % (bad,), TypeError, lambda: m.validate_scalar("x", bad, domain="positive"))
        c.ensure_raises("%r for any number" % (bad,), TypeError, lambda: m.validate_scalar("x", bad))
    c.ensure_raises("a complex number", TypeError, lambda: m.validate_scalar("x", 1 + 2j))
    c.ensure_is("no type required", m.validate_physical_type("x", v, None) is None)


@P.contract(_v + "validate_array", samples=300)
def arrays(c):
    """Number of dimensions and shape"""
    n, k = c.size("n", min=1, max=4), c.size("k", min=1, max=4)
    nd = c.forall("dimensions", [1, 2])
    want = c.forall("wanted", [1, 2])
    a = c.array("a", n) if nd == 1 else c.matrix("a", n, k)
    if c.forall("quantity", [False, True]):
        a = c.Q(a, c.unit("u", "energy"))
    f = c.naima.extern.validator.validate_array
    kw = {} if want == 1 and c.choice("default", [True, False]) else {"ndim": want}
    if want != nd:
        c.ensure_raises("another number of dimensions", TypeError, lambda: f("x", a, **kw))
        return
    ok = _accepted(c, lambda: f("x", a, **kw), a)
    c.ensure_is("accepted", ok)
    sh = tuple(c.size("s%d" % j, min=1, max=4) for j in range(nd))
    dims = (n, k)[:nd]
    same = c.M.and_(*[c.M.eq(c.V(x), c.V(y)) for x, y in zip(sh, dims)])
    ok = _accepted(c, lambda: f("x", a, shape=sh, **kw), a)
    c.ensure("accepted exactly when it has the shape", same if ok else c.M.not_(same))


@P.contract(_v + "validate_array", samples=100)
def sequences(c):
    """Lists and tuples of numbers become the array of these numbers"""
    xs = [c.num("x%d" % j, lo=-5, hi=5) for j in range(c.forall("n", [1, 2, 3]))]
    s = c.forall("kind", [list, tuple])(xs)
    f = c.naima.extern.validator.validate_array
    r = f("x", s)
    c.ensure_eq("number of values", c.V(c.length(r)), len(xs))
    for j, x in enumerate(xs):
        c.ensure_eq("value", c.At(r, j), c.V(x))
    c.ensure_raises("wrong length", ValueError, lambda: f("x", s, shape=(len(xs) + 1,)))
    c.ensure_raises("wrong number of dimensions", TypeError, lambda: f("x", s, ndim=2))
    c.ensure_raises("a number", TypeError, lambda: f("x", xs[0]))
    c.ensure_raises("a word", TypeError, lambda: f("x", "abc"))
    c.ensure_raises("nothing", TypeError, lambda: f("x", None))
