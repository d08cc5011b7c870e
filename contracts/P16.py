"""P16: energy bins generated for a set of energies"""
from pyvc.report import Property
from .common import EDGES, group_edges_stub

P = Property("P16")
_single = "naima.utils._generate_energy_edges_single"
_gen = "naima.utils.generate_energy_edges"


def _edges(c, min=2):
    n = c.size("n", min=min, max=7)
    e = c.qarray("e", "energy", n, lo=1e-3, hi=1e3, ref="TeV", log=True)
    return n, e


def _call(c, e):
    """Either through the single function, or the public one without groups"""
    if c.forall("public", [True, False]):
        return c.naima.utils.generate_energy_edges(e)
    return c.naima.utils._generate_energy_edges_single(e)


@P.contract(_single, _gen, samples=200)
def neighbours(c):
    """Neighbouring bins meet at the geometric mean of the two energies, in any order of the energies"""
    n, e = _edges(c)
    lo, hi = _call(c, e)
    p = c.order(e)
    if c.symbolic:
        (k,) = c.indices(n)[0]
        c.assume(c.t.lt(c.t.add(k, c.t.ONE), c.s._t(n)))
        pairs = [(p[k], p[c.t.add(k, c.t.ONE)])]
    else:
        pairs = [(p[k], p[k + 1]) for k in range(n - 1)]
    for a, b in pairs:
        ea, eb = c.At(e, a, "TeV"), c.At(e, b, "TeV")
        g = c.M.sqrt(ea * eb)
        c.ensure_eq("upper edge", ea + c.At(hi, a, "TeV"), g)
        c.ensure_eq("lower edge", eb - c.At(lo, b, "TeV"), g)


@P.contract(_single, _gen, samples=200)
def outermost(c):
    """The lowest bin is symmetric in log energy, the highest one in energy"""
    n, e = _edges(c)
    lo, hi = _call(c, e)
    p = c.order(e)
    last = p[n - 1] if not c.symbolic else p[c.t.add(c.s._t(n), c.t.MINUS1)]
    first = p[0] if not c.symbolic else p[c.t.ZERO]
    x = c.At(e, first, "TeV")
    c.ensure_eq("lowest", (x - c.At(lo, first, "TeV")) * (x + c.At(hi, first, "TeV")), x * x)
    c.ensure_eq("highest", c.At(lo, last, "TeV"), c.At(hi, last, "TeV"))


@P.contract(_single, _gen, samples=200)
def inside(c):
    """Every energy lies inside of its own bin of positive energies"""
    n, e = _edges(c)
    lo, hi = _call(c, e)
    p = c.order(e)
    if c.symbolic:
        # energies that differ from each other
        t, n = c.t, c.s._t(n)
        increasing = lambda a, b: c.assume(t.lt(c.At(e, p[a], "TeV"), c.At(e, p[b], "TeV")))
        where = c.choice("where", ["lowest", "highest", "between"])
        at = lambda k: t.add(n, t.const(k))
        if where == "lowest":
            k = t.ZERO
            increasing(k, t.ONE)
        elif where == "highest":
            k = at(-1)
            increasing(at(-2), k)
        else:
            (k,) = c.indices(n)[0]
            c.assume(t.lt(t.ZERO, k))
            c.assume(t.lt(t.add(k, t.ONE), n))
            increasing(k, t.add(k, t.ONE))
            increasing(t.add(k, t.MINUS1), k)
        positions = [p[k]]
    else:
        positions = p
    for i in positions:
        x, l, h = c.At(e, i, "TeV"), c.At(lo, i, "TeV"), c.At(hi, i, "TeV")
        c.ensure("positive width below", c.M.lt(0, l))
        c.ensure("positive width above", c.M.lt(0, h))
        c.ensure("positive edge", c.M.lt(0, x - l))


@P.contract(_single, _gen, samples=20)
def alone(c):
    """A single energy has a bin of no width"""
    e = c.qarray("e", "energy", 1, lo=1e-3, hi=1e3, ref="TeV")
    lo, hi = _call(c, e)
    z = c.t.ZERO if c.symbolic else 0
    c.ensure_eq("below", c.At(lo, z, "TeV"), 0)
    c.ensure_eq("above", c.At(hi, z, "TeV"), 0)


@P.contract(_gen, _single, samples=300)
def unchanged(c):
    """The shape is that of the energies, and these are not changed"""
    n, e = _edges(c)
    e0 = e.copy()
    r = _call(c, e)
    c.ensure_shape("below", r[0], e)
    c.ensure_shape("above", r[1], e)
    for i in c.each(e):
        c.ensure_eq("energies", c.At(e, i, "TeV"), c.At(e0, i, "TeV"))


@P.contract(_gen, samples=200, stubs=(group_edges_stub,), assumes=(EDGES,))
def groups(c):
    """Each group has the bins that it would have on its own"""
    n = c.size("n", min=3, max=9)
    values = c.forall("groups", [(0, 1), (0, 1, 2), (3, 7), (5,)])
    e = c.qarray("e", "energy", n, lo=1e-3, hi=1e3, ref="TeV", log=True)
    g = c.labels("g", n, values)
    r = c.naima.utils.generate_energy_edges(e, groups=g)
    c.ensure_shape("below", r[0], e)
    for v in values:
        sel = g == v
        lo, hi = c.naima.utils._generate_energy_edges_single(e[sel])
        got = r[:, sel]
        for i in c.each(lo):
            c.ensure_eq("below", c.At(got[0], i, "TeV"), c.At(lo, i, "TeV"))
            c.ensure_eq("above", c.At(got[1], i, "TeV"), c.At(hi, i, "TeV"))


@P.contract(_gen, samples=100, stubs=(group_edges_stub,), assumes=(EDGES,))
def other_length(c):
    """Groups of another length are ignored"""
    n = c.size("n", min=2, max=9)
    e = c.qarray("e", "energy", n, lo=1e-3, hi=1e3, ref="TeV", log=True)
    m = n + 1
    g = c.array("g", m, lo=0, hi=3)
    r = c.naima.utils.generate_energy_edges(e, groups=g)
    lo, hi = c.naima.utils._generate_energy_edges_single(e)
    for i in c.each(lo):
        c.ensure_eq("below", c.At(r[0], i, "TeV"), c.At(lo, i, "TeV"))
        c.ensure_eq("above", c.At(r[1], i, "TeV"), c.At(hi, i, "TeV"))
